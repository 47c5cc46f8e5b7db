"""Shared, weak and exclusive handles: every block's counters match the handles that hold it, and the object goes exactly once."""
from .common import *
TITLE = 'Smart handles keep their counts exact and destroy each object once'
EXPLAIN = ('Conservation accounting over every abstract path of every handle operation (copy, move, conversion, cast, '
           'assignment, self-assignment, weak/strong conversion, wrapping, dropping), with the counter code itself analysed: '
           'for each counter block the change of each count on the path equals the change in the number of handles holding '
           'it; the object and the block are released exactly on the paths where the result of the decrement itself says so.')
RULES = {'count': 'on every path the change of a count equals the change in the number of handles of that kind on the block',
         'release': 'the object is deleted exactly once, on exactly the paths where the strong decrement is known to give zero, with the matching delete',
         'block': 'the counter block is deleted exactly when nothing holds it any more, as told by the decrements themselves',
         'after-release': 'a counter block is not touched after the handle gave up its hold on it',
         'revive': 'a strong count is raised from a weak handle only by an increment that is known to start above zero',
         'result': 'the operation leaves each handle holding what it should: copies share, moves empty the source, swaps exchange',
         'pair': 'a handle that holds a block points to the object of that block',
         'own': 'an exclusive object has exactly one owner, or was deleted or given up, once',
         'ordering': 'a decrement that may release the object orders earlier uses before the release',
         'acquire-first': 'an assignment acquires its new target before it lets go of the old one'}
ASSUME = ['a handle itself is not used by two threads at once (as for any value); the counters may be',
          'distinct handles given to an operation are distinct objects unless the operation is the self-assignment one']

HCLS = [NS + x for x in ('BoxObj', '_BoxObj', 'RcObjBase', '_RcObjBase', 'WeakObjBase', '_WeakObjBase')]
BLK = ('ref_cnt', 'weak_cnt')
NULLV = (('null',), ('c', 0))


def split(v):
    """(symbolic part, constant)"""
    if v[0] == 'c':
        return None, v[1]
    if v[0] == 'lin' and len(v[1]) == 1 and v[1][0][1] == 1:
        return v[1][0][0], v[2]
    return v, 0


class Acc:
    def __init__(self, ctx, it, op, pa):
        self.ctx, self.it, self.op, self.pa, self.facts = ctx, it, op, pa, pa.st.iv
        self.sig = op.qn.split('::', 1)[1]
        self.kind, self.what = self.sig.split('::')
        self.where = op.where

    def ob(self, rule, ok, text, e=None):
        ev = e.where if e is not None else next((x.where for x in reversed(self.pa.events) if 'ref.h' in x.where), self.where)
        self.ctx.ob(rule, ok, ev, '%s: %s' % (self.sig, text), self.pa, sig='%s:%s' % (self.sig, rule))

    def tri(self, p):
        if self.it.holds(self.facts, p):
            return True
        if self.it.holds(self.facts, pred_not(p)):
            return False
        return None

    def zero(self, v, k=0):
        """is a counter value, known to be at least k, equal to k?"""
        if self.it.holds(self.facts, le(v, C(k))):
            return True
        if self.it.holds(self.facts, lt(C(k), v)) or self.it.holds(self.facts, pred_not(eq(v, C(k)))):
            return False
        return self.tri(eq(v, C(k)))

    def isnull(self, v):
        return v in NULLV or self.tri(eq(v, C(0))) is True


def params(op):
    out = {}
    for p in op.params:
        loc = ('p', op.qn, p['n'])
        cls = short(p.get('tr', ''))
        k = {'RcObjBase': 's', 'WeakObjBase': 'w', 'BoxObj': 'b'}.get(cls, 'p')
        out[p['n']] = (k, loc)
    return out


OBJ = {'s': NS + '_RcObjBase::obj', 'w': NS + '_WeakObjBase::obj', 'b': NS + '_BoxObj::obj'}
CTL = {'s': NS + '_RcObjBase::ctl', 'w': NS + '_WeakObjBase::ctl'}


def check(ctx):
    P = ctx.prog
    ops = [f for f in P.functions.values() if f.qn.startswith('verif_driver::') and f.qn.split('::')[1] in ('rc', 'arc', 'box')
           and len(f.qn.split('::')) == 3 and f.kind == 'method' and f.body is not None]
    ctx.require(len(ops) >= 55, 'handle operations not found (%d)' % len(ops))
    init = {'rc': 0, 'arc': 1}
    for op in sorted(ops, key=lambda f: f.qn):
        it, ps = ctx.paths(op, Config(handles=False, inline_dtors=HCLS, split=True))
        for pa in ps:
            if pa.kind == 'backedge':
                # a retry may not have changed anything
                for e in pa.events:
                    if e.kind == 'atomic' and e.name == 'rmw' or e.kind == 'write' and fld(e) in BLK:
                        ctx.ob('count', False, e.where, '%s: a count is changed in an attempt that is retried' % op.qn, pa, sig=op.qn + ':retry')
                continue
            one(ctx, it, op, pa, init)
    for r in ('count', 'release', 'block', 'result', 'pair', 'own', 'revive', 'ordering', 'acquire-first'):
        ctx.need(r)


def one(ctx, it, op, pa, init):
    a = Acc(ctx, it, op, pa)
    hs = params(op)
    # does this path assume two names for one handle (or a handle at a temporary's address)?
    alias = any(len(vp) == 2 and all(t[0][0] == 'addr' for t in vp) and it.holds(pa.st.iv, eq(vp[0][0], vp[1][0])) for vp in pa.st.iv)
    val = lambda loc: pa.st.cells.get(loc, ('init', loc))
    # blocks and who holds them
    start, end, pair, new = {}, {}, {}, {}
    for n, (k, loc) in hs.items():
        if k in CTL:
            v = ('init', ('f', loc, CTL[k]))
            start.setdefault(v, {'s': 0, 'w': 0})[k] += 1
            pair[v] = ('init', ('f', loc, OBJ[k]))
    for e in pa.events:
        if e.kind == 'new' and e.name.endswith('Ctl'):
            new[e.res] = e
    holders = []
    for n, (k, loc) in hs.items():
        if k in CTL:
            holders.append((k, loc))
    for l in pa.st.cells:
        if l[0] == 'f' and l[1][0] == 't' and l[2] in CTL.values():
            holders.append(('s' if l[2] == CTL['s'] else 'w', l[1]))
    for k, loc in holders:
        v = val(('f', loc, CTL[k]))
        if v in NULLV:
            continue
        end.setdefault(v, {'s': 0, 'w': 0})[k] += 1
    # the counts
    ds, dw, step = {}, {}, {}
    ev = {}
    cur = {}
    for e in pa.events:
        if e.kind not in ('atomic', 'write') or not e.obj or e.obj[0] != 'f' or short(e.obj[2]) not in BLK or e.obj[1][0] != 'obj':
            continue
        v = e.obj[1][1]
        d = ds if short(e.obj[2]) == 'ref_cnt' else dw
        which = 's' if d is ds else 'w'
        ev.setdefault(v, []).append((which, e))
        step[id(e)] = 0
        if e.kind == 'atomic':
            if e.name == 'rmw':
                x = e.args[0]
                if x[0] != 'c':
                    a.ob('count', False, 'a count changes by an amount that is not known', e)
                    continue
                d[v] = d.get(v, 0) + x[1]
                step[id(e)] = x[1]
            elif e.name == 'init':
                d[v] = d.get(v, 0) + (e.args[0][1] if e.args[0][0] == 'c' else 99)
            elif e.name == 'cas':
                if e.res == C(1):
                    b0, k0 = split(e.args[0])
                    b1, k1 = split(e.args[1])
                    if b0 != b1:
                        a.ob('count', False, 'a count is exchanged for an unrelated value', e)
                        continue
                    d[v] = d.get(v, 0) + k1 - k0
            elif e.name == 'store':
                a.ob('count', False, 'a shared count is overwritten', e)
        else:
            b0, k0 = split(cur.get(e.obj, ('c', 0) if v in new else ('init', e.obj)))
            b1, k1 = split(e.args[0])
            if b0 != b1:
                a.ob('count', False, 'a count is overwritten with an unrelated value', e)
                continue
            d[v] = d.get(v, 0) + k1 - k0
            step[id(e)] = k1 - k0 if v not in new else 0
            cur[e.obj] = e.args[0]
    shared = a.kind == 'arc'
    blocks = set(start) | set(end) | set(ds) | set(dw)
    for v in blocks:
        if a.isnull(v):
            continue
        s0, s1 = start.get(v, {'s': 0, 'w': 0}), end.get(v, {'s': 0, 'w': 0})
        evs = ev.get(v, [])
        a.ob('count', ds.get(v, 0) == s1['s'] - s0['s'],
             'the strong count changes by %+d while the handles change by %+d' % (ds.get(v, 0), s1['s'] - s0['s']), evs[-1][1] if evs else None)
        # which decrement emptied it?
        gone = gonew = False
        undecided = False
        for which, e in evs:
            if e.kind == 'atomic' and e.name == 'rmw' and e.args[0] == C(-1):
                z = a.zero(e.res, 1)
            elif e.kind == 'write' and step[id(e)] < 0:
                z = a.zero(e.args[0])
            else:
                continue
            if e.kind == 'atomic':
                o = e.args[-1]
                fence = any(x.kind == 'call' and short(x.name) == 'atomic_thread_fence' for x in pa.events)
                a.ob('ordering', o in (C(4), C(5)) or o == C(3) and (fence or z is False), 'the decrement does not order the uses before it', e)
            if which == 's':
                gone = gone or z is True
                if z is None:
                    undecided = True
            else:
                gonew = gonew or z is True
                if z is None:
                    undecided = True
        # weak side
        if v in new:
            base0 = 0
            scheme = dw.get(v, 0) - s1['w']
            a.ob('count', scheme == init[a.kind], 'a new block starts with a weak count of %d' % dw.get(v, 0), new[v])
        else:
            want = s1['w'] - s0['w'] - (1 if init[a.kind] and gone else 0)
            a.ob('count', dw.get(v, 0) == want, 'the weak count changes by %+d where %+d is due' % (dw.get(v, 0), want), evs[-1][1] if evs else None)
        # release of the object
        obj = pair.get(v)
        dels = [e for e in pa.events if e.kind == 'delete' and not e.name.endswith('Ctl') and e.args[0] == obj] if obj else []
        strongdec = any(w == 's' and step[id(e)] < 0 for w, e in evs)
        if obj is not None and (strongdec or dels):
            a.ob('release', not undecided, 'whether this was the last handle is not taken from the decrement', evs[-1][1] if evs else None)
            a.ob('release', len(dels) == (1 if gone else 0), 'the object is deleted %d times where the strong count %s zero'
                 % (len(dels), 'reaches' if gone else 'does not reach'), dels[0] if dels else None)
            for e in dels:
                a.ob('release', bool((e.x or {}).get('array')) == a.what.startswith('array_'), 'the wrong kind of delete is used', e)
                i = pa.events.index(e)
                a.ob('release', any(x is y for x in pa.events[:i] for w, y in evs if w == 's'), 'the object is deleted before the count is dropped', e)
        # release of the block
        bd = [e for e in pa.events if e.kind == 'delete' and e.name.endswith('Ctl') and e.args[0] in (v, ('addr', ('obj', v)))]
        if evs or bd:
            if init[a.kind]:
                due = gonew
            else:
                f = lambda n: val(('f', ('obj', v), NS + '_RCCtl::' + n))
                zs, zw = a.zero(f('ref_cnt')), a.zero(f('weak_cnt'))
                due = False if zs is False or zw is False else True if zs and zw else None
                if due is None and (ds.get(v, 0) > 0 or dw.get(v, 0) > 0 or v in new):
                    due = False
                if due is None and not ds.get(v, 0) and not dw.get(v, 0):
                    due = False
            a.ob('block', due is not None and len(bd) == (1 if due else 0),
                 'the counter block is deleted %d times where it is %s' % (len(bd), {True: 'held by nothing', False: 'still held', None: 'not known to be free'}[due]),
                 bd[0] if bd else None)
            # no touch after
            if not any(s1.values()):
                left = None
                for which, e in evs:
                    if left is not None:
                        a.ob('after-release', False, 'the counter block is used after it was let go', e)
                        break
                    if e.kind == 'atomic' and e.name == 'rmw' and e.args[0] == C(-1) and (which == 'w' or a.zero(e.res, 1) is False):
                        left = e
                if left is not None:
                    a.ob('after-release', True, '')
                for d in bd:
                    i = pa.events.index(d)
                    a.ob('after-release', not any(x is y for x in pa.events[i + 1:] for w, y in evs), 'the counter block is used after it was deleted', d)
        # a weak handle alone may not revive
        if not s0['s'] and s0['w'] and ds.get(v, 0) > 0:
            ok = False
            for which, e in evs:
                if which != 's':
                    continue
                if e.kind == 'atomic' and e.name == 'cas' and e.res == C(1):
                    ok = a.zero(e.args[0]) is False and split(e.args[1])[1] - split(e.args[0])[1] == 1
                elif e.kind == 'write':
                    ok = a.zero(('init', e.obj)) is False
            a.ob('revive', ok, 'a reference is taken through a weak handle though the last one may be gone', evs[0][1] if evs else None)
    # pairing
    for k, loc in holders:
        v = val(('f', loc, CTL[k]))
        if v in NULLV or a.isnull(v):
            continue
        o = val(('f', loc, OBJ[k]))
        if v in new:
            pair.setdefault(v, o)
        a.ob('pair', o == pair.get(v), 'a handle points to an object other than the one its block counts')
    # acquire before release
    if 'dst' in hs and 'src' in hs and hs['dst'][0] in CTL and hs['src'][0] in CTL and not alias:
        v0 = ('init', ('f', hs['dst'][1], CTL[hs['dst'][0]]))
        v1 = ('init', ('f', hs['src'][1], CTL[hs['src'][0]]))
        dec = next((i for i, e in enumerate(pa.events) if any(e is y and step[id(y)] < 0 for w, y in ev.get(v0, []))), None)
        if dec is not None and v0 != v1:
            late = [e for e in pa.events[dec:] if any(e is y for w, y in ev.get(v1, [])) or
                    e.kind == 'write' and e.obj in (('f', hs['dst'][1], CTL[hs['dst'][0]]), ('f', hs['src'][1], CTL[hs['src'][0]]))]
            a.ob('acquire-first', not late, 'the old target is released before the new one is taken over', late[0] if late else None)
    # outcome
    if not alias:
        outcome(a, hs, val, new)
    ownership(a, op, pa, hs, val, new, pair)


def handle(val, h, at_end=True):
    k, loc = h
    g = val if at_end else (lambda l: ('init', l))
    if k == 'p':
        return g(loc), None
    return g(('f', loc, OBJ[k])), (g(('f', loc, CTL[k])) if k in CTL else None)


def empty(a, h, v):
    k = h[0]
    return (v[1] is None or a.isnull(v[1])) and (k == 'w' or a.isnull(v[0]))


def same(a, x, y):
    return x == y or (a.isnull(x[1]) and a.isnull(y[1]) if x[1] is not None and y[1] is not None else False)


def outcome(a, hs, val, new):
    w = a.what
    for p in ('weak_', 'array_'):
        if w.startswith(p):
            w = w[len(p):]
    dst, src = hs.get('dst'), hs.get('src')
    d0 = handle(val, dst, False) if dst else None
    d1 = handle(val, dst) if dst else None
    s0 = handle(val, src, False) if src else None
    s1 = handle(val, src) if src else None
    if w in ('assign', 'conv', 'cast', 'weaken'):
        a.ob('result', same(a, d1, s0) and s1 == s0, 'the copy and its source do not share the object')
    elif w in ('move_assign', 'conv_move', 'cast_move'):
        a.ob('result', same(a, d1, s0), 'the target does not take over what the source held')
        a.ob('result', empty(a, src, s1), 'the source of a move is not left empty')
    elif w == 'swap':
        a.ob('result', d1 == s0 and s1 == d0, 'the handles are not exchanged')
    elif w == 'clear':
        a.ob('result', empty(a, dst, d1), 'the handle is not empty')
    elif w in ('self_assign', 'self_move'):
        a.ob('result', d1 == d0, 'assigning a handle to itself changes it')
    elif w == 'copy_then_drop':
        a.ob('result', s1 == s0, 'copying changes the source')
    elif w == 'move_then_drop':
        a.ob('result', empty(a, src, s1), 'the source of a move is not left empty')
    elif w in ('wrap', 'unbox'):
        a.ob('result', d1[0] == s0[0] and (d1[1] is None or d1[1] in new), 'the object is not taken under a new block')
        if w == 'unbox':
            a.ob('result', empty(a, src, s1), 'the source of a move is not left empty')
    elif w == 'unwrap':
        a.ob('result', empty(a, dst, d1) and a.pa.ret == d0[0], 'the object is not handed over')
    elif w == 'upgrade':
        if a.isnull(d1[1]) and not a.isnull(s0[1]):
            zero = [t for vp in a.facts for t, k in vp if len(vp) == 1 and a.zero(t) is True
                    and t != s0[1] and t != ('init', ('f', dst[1], CTL['s'])) and t != s0[0]]
            a.ob('result', bool(zero) and a.isnull(d1[0]), 'a live object is not handed out')
        else:
            a.ob('result', same(a, d1, s0) and s1 == s0, 'the copy and its source do not share the object')
    else:
        a.ctx.require(False, 'operation %s has no stated outcome' % w)


def ownership(a, op, pa, hs, val, new, pair):
    """raw and boxed objects"""
    objs = {}
    for n, (k, loc) in hs.items():
        if k == 'p':
            objs[('init', loc)] = n
        elif k == 'b':
            objs[('init', ('f', loc, OBJ['b']))] = n
    for o in objs:
        if a.isnull(o):
            continue
        end = sum(1 for n, (k, loc) in hs.items() if k == 'b' and val(('f', loc, OBJ['b'])) == o)
        end += sum(1 for l, v in pa.st.cells.items() if l[0] == 'f' and l[1][0] == 't' and l[2] == OBJ['b'] and v == o)
        end += sum(1 for v in new if pair.get(v) == o)
        d = [e for e in pa.events if e.kind == 'delete' and e.args[0] == o]
        r = 1 if pa.ret == o else 0
        a.ob('own', end + len(d) + r == 1, 'the object has %d owners and is deleted %d times' % (end + r, len(d)), d[0] if d else None)
        for e in d:
            a.ob('own', bool((e.x or {}).get('array')) == a.what.startswith('array_'), 'the wrong kind of delete is used', e)
