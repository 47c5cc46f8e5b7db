"""Decoding stays inside the data."""
from .common import *
from ..interp import OPAQUE_CLASSES, INT_W, is_unsigned, tnorm
from .c08 import (DS, THIS, BUF, OFF, B0, O0, WIDTH, strip_st, convs, unconv, evalt, leaves, at_offset, pointer_to,
                  read_at_offset)
TITLE = 'Decoding never reads past the data or allocates beyond it'
EXPLAIN = ('Interval and typestate analysis of every stream method and every decoder: the read position never exceeds the '
           'buffer on any exit (normal, exceptional, moved-from), every access at the read position is dominated by a bound '
           'check that cannot wrap, sizes taken from the wire are compared with what remains before anything is allocated, '
           'and a payload or a fixed-size value is only loaded from data known to be there.')
RULES = {'invariant': 'the read position never exceeds the data, whatever way a stream method is left',
         'guard': 'bytes are only accessed where they are known to exist',
         'refuse': 'a short stream is refused with an exception',
         'no-wrap': 'the arithmetic of bound checks on wire values cannot wrap around',
         'alloc': 'a count from the wire is bounded by the remaining data before memory is allocated for it',
         'once': 'a payload can be taken once; taking it again is an error',
         'load': 'a fixed-size value is only loaded from exactly as many bytes'}
ASSUME = ['containers hold less than 2^63 bytes', 'raw-pointer constructors are given as many bytes as they document']
SKIP_VARIANTS = ('no-check',)
SZ = ('ap', 'size', (B0,))
BIG = 1 << 63


def check(ctx):
    stream(ctx)
    decoders(ctx)
    payload(ctx)
    fixed(ctx)
    for r, n in (('invariant', 30), ('guard', 8), ('no-wrap', 4), ('alloc', 3), ('once', 2), ('load', 2), ('refuse', 8)):
        ctx.need(r, n)


def inv_holds(it, pa, base):
    """offset <= size(buffer) for the stream at `base`, given that it held for every stream at entry"""
    o = pa.value(('f', base, DS + '::offset'))
    b = pa.value(('f', base, DS + '::buffer'))
    o = ('init', ('f', base, DS + '::offset')) if o is None else strip_st(o)
    b = ('init', ('f', base, DS + '::buffer')) if b is None else strip_st(b)
    if o == C(0):
        return True
    return inv_val(it, pa.st.iv, o, b)


def inv_val(it, facts, o, b):
    if o[0] == 'h':
        o = ('init', o[2])          # loop invariant: checked on the back edge
    if b[0] == 'h':
        b = ('init', b[2])
    if b[0] == 'moved':
        return it.holds(facts, eq(o, C(0)))
    while b[0] == 'ap':
        s = short(b[1]).rstrip("'")
        if s == 'resize' and grows(b):
            b = strip_st(b[2][0])
        elif s in ('insert', 'push_back', 'emplace_back'):
            b = strip_st(b[2][0])
        else:
            break
        if b[0] == 'h':
            b = ('init', b[2])
    if o[0] == 'init' and o[1][0] == 'f' and b[0] == 'init' and b[1][0] == 'f' and o[1][1] == b[1][1]:
        return True
    return bool(it.holds(facts, le(o, ('ap', 'size', (b,)))))


def grows(b):
    """resize to at least the old size"""
    d, c = as_lin(lin_add(b[2][1], ('ap', 'size', (b[2][0],)), -1))
    if c < 0:
        return False
    # what is added is a size, a length, or the distance between two pointers given as a range
    return all(k >= 0 or x[0] == 'init' for x, k in d.items())


def stream(ctx):
    for f in ctx.prog.methods_of(DS):
        if f.qn.endswith('(dtor)'):
            continue
        it = Interp(ctx.prog, Config(extra_opaque={ERR}, arith=True))
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        objs = [THIS] + [('p', f.qn, x['n']) for x in f.params if 'DataStream' in x.get('t', '')]
        for pa in ps:
            for o in objs:
                if o == THIS and not f.qn.endswith('(ctor)') and not touches(pa, THIS):
                    continue
                if o == THIS and f.qn.endswith('(ctor)') and pa.value(OFF) is None:
                    ctx.ob('invariant', False, f.where, 'a stream is constructed without a read position', pa)
                    continue
                ctx.ob('invariant', inv_holds(it, pa, o), f.where,
                       'the read position may exceed the data on leaving %s%s' % (short(f.qn), ' by an exception' if pa.kind == 'throw' else ''),
                       pa, sig='%s:%s' % (f.fn.split('|')[0], 'this' if o == THIS else 'other'))
            for i, e in enumerate(pa.events):
                if e.kind == 'write' and is_off(e.obj) and not f.qn.endswith('(ctor)'):
                    nv = strip_st(e.args[0])
                    if nv != C(0) and nv[0] != 'init':
                        b = cur_buf(pa, i, e.obj[1])
                        ctx.ob('guard', b is None or inv_val(it, e.facts, nv, b) or bool(it.holds(e.facts, le(nv, ('ap', 'size', (b,))))),
                               e.where, 'the read position is advanced without a check that the data is there', pa)
                for src, n in reads(f, e):
                    ctx.ob('guard', bool(it.holds(e.facts, le(lin_add(O0, n), SZ))), e.where,
                           'bytes at the read position are read without a check that they are there', pa)
                if e.kind == 'throw':
                    ctx.ob('refuse', 'failure' in e.name or 'invalid_argument' in e.name or 'Error' in e.name, e.where,
                           'a short stream is refused with an unexpected exception', pa)
            if short(f.qn) in ('operator>>', 'get_data_inplace', 'size', 'data'):
                wraps(ctx, it, f, pa)
        if f.qn.endswith('operator>>') and any(touches(p, THIS) for p in ps) or f.qn.endswith('get_data_inplace'):
            ctx.ob('refuse', any(p.kind == 'throw' for p in ps), f.where, 'a short stream is not refused', None, sig=f.fn.split('|')[0])


def is_off(l):
    return bool(l) and l[0] == 'f' and l[2] == DS + '::offset'


def touches(pa, base):
    return any(e.obj is not None and has_prefix(e.obj, base) for e in pa.events if e.kind in ('write', 'call')) or \
        pa.value(OFF) is not None


def cur_buf(pa, i, base):
    b = ('f', base, DS + '::buffer')
    for e in pa.events[:i]:
        if e.obj == b and e.kind == 'call':
            return None
    return ('init', b)


def reads(f, e):
    """accesses at the read position: (source, byte count)"""
    if not f.qn.endswith('operator>>'):
        return
    t = f.fn.split('|')[1]
    t = t[t.index('(') + 1:t.rindex(')')].replace('const ', '').rstrip('& ').strip()
    if e.kind == 'write' and t in WIDTH and read_at_offset(e.args[0]):
        yield e.args[0], C(WIDTH[t])
    if e.kind == 'call' and short(e.name) in ('memmove', 'memcpy'):
        v = e.x['vals']
        if at_offset(v[1]):
            yield v[1], v[2]


def bound(it, facts, t, tmax):
    """an upper bound of the value of an unsigned term"""
    t = strip_st(t)
    if t[0] == 'c':
        return t[1]
    k = ((t, 1),)
    hi = None
    x = facts.get(k)
    if x:
        hi = x[1]
    own = tmax
    ty = it.ty.get(t)
    if ty and tnorm(ty) in INT_W:
        own = min(own, (1 << INT_W[tnorm(ty)]) - 1)
    if t[0] == 'narrow' and t[1] in INT_W:
        own = min(own, (1 << INT_W[t[1]]) - 1)
    if (ap(t, 'size') or (t[0] == 's' and t[3] == 'size')) and tmax > BIG:
        own = BIG - 1
    if t[0] == 'init' and is_off(t[1]):
        own = min(own, BIG - 1)
    if t[0] == 'h' and is_off(t[2]):
        own = min(own, BIG - 1)
    if t[0] == 'lin':
        s = t[2]
        for x, m in t[1]:
            if m < 0:
                continue
            s += m * bound(it, facts, x, tmax)
        own = min(own, s) if s >= 0 else own
    if t[0] == 'op':
        if t[1] == '/' and t[3][0] == 'c' and t[3][1] > 0:
            own = min(own, bound(it, facts, t[2], tmax) // t[3][1])
        elif t[1] == '>>' and t[3][0] == 'c':
            own = min(own, bound(it, facts, t[2], tmax) >> t[3][1])
        elif t[1] == '%' and t[3][0] == 'c' and t[3][1] > 0:
            own = min(own, t[3][1] - 1)
        elif t[1] == '&' and t[3][0] == 'c' and t[3][1] >= 0:
            own = min(own, t[3][1])
    if t[0] in ('in', 'ne', 'not'):
        own = 1
    return own if hi is None else min(own, hi)


def stream_value(t):
    """the term depends on decoded data, a stream's state, or a length parameter"""
    for x in subterms(t):
        if x[0] == 's' and x[3] == 'out0':
            return True
        if x[0] == 'init' and x[1][0] in ('p', 'i', 'obj'):
            return True
        if x[0] == 'init' and x[1][0] == 'f' and x[1][1] == THIS:
            return True
        if x[0] == 's' and 'identity' in x[3]:
            return True
    return False


def not_below(it, facts, a, b):
    """a - b is known not to be negative: from the path's comparisons, or because a read position never exceeds its data"""
    a, b = strip_st(a), strip_st(b)
    if it.holds(facts, le(b, a)):
        return True
    d, c = as_lin(lin_add(a, b, -1))
    if c < 0:
        return False
    pos = [x for x, k in d.items() if k > 0]
    neg = [x for x, k in d.items() if k < 0]
    if not neg:
        return True
    return len(neg) == 1 and d[neg[0]] == -1 and any(ap(x, 'size') and inv_val(it, facts, neg[0], x[2][0]) for x in pos)


def wraps(ctx, it, f, pa):
    for e in pa.events:
        if e.kind != 'arith' or e.x['t'] not in INT_W or not is_unsigned(e.x['t']):
            continue
        if not any(stream_value(a) for a in e.args):
            continue
        tmax = (1 << INT_W[e.x['t']]) - 1
        if e.name == '-':
            ctx.ob('no-wrap', not_below(it, e.facts, e.args[0], e.args[1]), e.where, 'the difference %s - %s may wrap around below zero' %
                   (show(e.args[0]), show(e.args[1])), pa)
            continue
        a, b = (bound(it, e.facts, x, tmax) for x in e.args)
        r = a + b if e.name == '+' else a * b if e.name == '*' else a << min(b, 128)
        if e.name == '<<' and 'log2' in e.fn:
            continue
        ctx.ob('no-wrap', r <= tmax, e.where, 'the sum/product %s %s %s may wrap around in %s' %
               (show(e.args[0]), e.name, show(e.args[1]), e.x['t']), pa)


def decoders(ctx):
    fs = []
    for q in ('Blob::unserialize', '_Bits::unserialize', 'NetAddr::unserialize', 'MsgBase::parse_hash_list'):
        fs += ctx.prog.fns(NS + q)
    fs += [f for f in ctx.prog.fns(NS + 'MsgBase::(ctor)') + ctx.prog.fns(NS + 'PeerNetwork::MsgPing::(ctor)') if 'DataStream &&' in f.fn]
    ctx.require(len(fs) >= 6, 'decoders not found')
    nal = 0
    for f in fs:
        it = Interp(ctx.prog, Config(extra_opaque={ERR}, opaque_classes=OPAQUE_CLASSES | {DS}, arith=True))
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        for pa in ps:
            wraps(ctx, it, f, pa)
            cv = convs(pa.events)
            for e in pa.events:
                n = None
                if e.kind == 'new' and e.args:
                    n = e.args[0]
                elif e.kind == 'call' and short(e.name) in ('resize', 'reserve', 'assign') and not e.name.startswith(NS):
                    n = (e.x or {}).get('vals', e.args)[0]
                elif e.kind == 'call' and e.name.endswith('(ctor)') and e.name.startswith('std::vector') and e.args:
                    n = (e.x or {}).get('vals', e.args)[0]
                if n is None or not wire(n, cv):
                    continue
                nal += 1
                ctx.ob('alloc', bounded(it, e.facts, n, cv), e.where,
                       'memory for %s elements is allocated before the count is checked against the remaining data' % show(n), pa)
            for e in pa.events:
                if e.kind == 'call' and e.name.startswith(DS) and short(e.name) in ('data',):
                    ctx.ob('guard', False, e.where, 'a decoder takes a raw pointer into the stream', pa)
                if e.kind == 'throw':
                    ctx.ob('refuse', 'failure' in e.name or 'invalid_argument' in e.name or 'Error' in e.name, e.where,
                           'a short stream is refused with an unexpected exception', pa)
    ctx.require(nal >= 3, 'no wire-sized allocation found')


def wire(t, cv):
    return any((x[0] == 's' and x[3] == 'out0') or x in cv for x in subterms(t))


def bounded(it, facts, n, cv):
    """some fact bounds n by (a fraction of) the remaining size of the stream"""
    def rem(x):
        l = leaves(x)
        return bool(l) and all(y[0] == 's' and y[3] == 'size' for y in l)
    # candidate upper bounds: terms over the remaining size occurring in the facts
    cands = set()
    for vp in facts:
        for x, k in vp:
            if rem(x):
                cands.add(x)
    for x in cands:
        lf = leaves(x).pop()
        if not all((evalt(x, {lf: v}) or 0) <= v for v in (0, 1, 7, 8, 31, 32, 33, 1000, 1 << 20)):
            continue
        for k in (1, 2, 4, 8, 16, 32):
            d, c = as_lin(n)
            s = from_lin({a: b * k for a, b in d.items()}, c * k)
            if it.holds(facts, le(s, x)):
                return True
            # n <= x + small constant
    # n itself may be a rounded quotient: compare through its own leaves
    return False


def payload(ctx):
    MB = NS + 'MsgBase::'
    fs = ctx.prog.fns(MB + 'get_payload')
    ctx.require(fs, 'get_payload not found')
    NP = ('f', THIS, MB + 'no_payload')
    for f in fs:
        it = Interp(ctx.prog, Config(extra_opaque={ERR}))
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        for pa in ps:
            if pa.kind == 'ret':
                ctx.ob('once', bool(it.holds(pa.st.iv, pred_not(truth(('init', NP))))), f.where,
                       'a payload that is not there can be taken', pa)
                v = pa.value(NP)
                mv = pa.value(('f', THIS, MB + 'payload'))
                ctx.ob('once', v == C(1) or mv is None or mv[0] != 'moved', f.where,
                       'a payload can be taken twice', pa)
            else:
                ctx.ob('once', bool(it.holds(pa.st.iv, truth(('init', NP)))), f.where,
                       'an available payload is refused', pa)
    for f in ctx.prog.fns(MB + 'set_payload') + ctx.prog.fns(MB + '(ctor)'):
        it = Interp(ctx.prog, Config(extra_opaque={ERR}))
        ps = it.run(f)
        for pa in ps:
            if pa.kind != 'ret':
                continue
            v = pa.value(NP)
            has = any(e.kind == 'write' and e.obj == ('f', THIS, MB + 'payload') for e in pa.events) or f.copy or f.move
            v = strip_st(v) if v is not None else None
            if f.copy or f.move:
                ok = v is not None and v[0] == 'init' and v[1][0] == 'f' and v[1][2] == MB + 'no_payload'
            else:
                ok = v == C(0 if has else 1)
            ctx.ob('once', ok, f.where, 'the presence of the payload is not recorded', pa)


def fixed(ctx):
    B = NS + 'Blob'
    for f in ctx.prog.fns(B + '::(ctor)'):
        if 'std::vector' not in f.fn:
            continue
        it = Interp(ctx.prog, Config(extra_opaque={ERR, B + '::load'}))
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        import re
        m = re.search(r'Blob<(\d+)', f.fn)
        nb = int(m.group(1)) // 8
        P = ('init', ('p', f.qn, f.params[0]['n']))
        for pa in ps:
            if pa.kind == 'ret':
                ctx.ob('load', bool(it.holds(pa.st.iv, eq(('ap', 'size', (P,)), C(nb)))), f.where,
                       'a blob is loaded from data of another size', pa)
            elif pa.kind == 'throw':
                ctx.ob('load', not it.holds(pa.st.iv, eq(('ap', 'size', (P,)), C(nb))), f.where, 'data of the right size is refused', pa)
