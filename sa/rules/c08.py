"""Encoders and decoders are mirror images."""
import re
from .common import *
from ..interp import OPAQUE_CLASSES
TITLE = 'What is encoded decodes to the same value, field for field'
EXPLAIN = ('Every encoder/decoder pair of the library (message header, 256-bit blob, bit vector, network address, hash list, '
           'handshake messages) is reduced to the sequence of stream operations on each abstract path: width, byte order, '
           'and source or destination of each item, with loops reduced to the range of elements they visit.  The two '
           'sequences have to be mirror images.  The stream primitives themselves, the message constructors, and the '
           'copy/move/swap operations are checked against their own equations.')
RULES = {'layout': 'encoder and decoder agree on order, width and byte order of every item',
         'fields': 'each decoded item ends up in the field it was encoded from',
         'range': 'element loops visit exactly the elements of the value, in order',
         'flags': 'a decoded or loaded value is marked as present; a null value encodes as zeros',
         'count': 'the encoded element count is the number of elements that follow',
         'header-size': 'the declared header size is the number of header bytes the encoder emits',
         'describe': 'a message built for sending describes its payload: its size, its checksum, its type and its magic',
         'append': 'writing to a stream appends exactly the given bytes',
         'take': 'reading from a stream takes the bytes at the read position and advances by as many',
         'rest': 'the bytes of a stream are those between the read position and the end',
         'copy': 'copying, moving and swapping preserve every field'}
ASSUME = ['htole/letoh are the host byte order conversions of <endian.h>']

DS = NS + 'DataStream'
WIDTH = {'unsigned char': 1, 'char': 1, 'signed char': 1, 'bool': 1, 'unsigned short': 2, 'short': 2, 'unsigned int': 4,
         'int': 4, 'unsigned long': 8, 'long': 8, 'unsigned long long': 8, 'long long': 8}
THIS = ('obj', ('this',))


def strip_st(v):
    while v and v[0] == 'st':
        v = v[1]
    return v


class Item:
    def __init__(self, kind, width, val, ev, conv='raw'):
        self.kind, self.width, self.val, self.ev, self.conv = kind, width, val, ev, conv

    def sig(self):
        if self.kind == 'rep':
            return ('rep', tuple(x.sig() for x in self.val))
        return (self.kind, self.width, self.conv if self.width != 1 else 'raw')

    def __repr__(self):
        return '%s%s:%s' % (self.kind, self.width, self.conv)


def optype(e):
    fn = e.node.get('fn') or ''
    m = re.search(r'\((.*?)( ?&&?)?\)\|', fn.split('|', 1)[1] + '|') if '|' in fn else None
    t = fn.split('|')[1]
    t = t[t.index('(') + 1:t.rindex(')')]
    return t.replace('const ', '').rstrip('& ').strip()


def convs(evs):
    """results of byte order conversions -> (conversion, argument)"""
    r = {}
    for e in evs:
        m = re.match(r'(__)?(u?int|builtin_bswap|bswap_)(\d+)', short(e.name)) if e.kind == 'call' else None
        if m and e.res is not None:
            r[e.res] = ('swap' if 'bswap' in e.name else 'le', (e.x or {}).get('vals', e.args)[0])
    return r


def unconv(cv, t):
    t = strip_st(t)
    if t in cv:
        return cv[t]
    return ('raw', t)


class Wire:
    """the stream operations of one function"""

    def __init__(self, ctx, f, enc, stream=None):
        self.ctx, self.f, self.enc = ctx, f, enc
        self.it = Interp(ctx.prog, Config(extra_opaque={ERR}, opaque_classes=OPAQUE_CLASSES | {DS},
                                          reads={NS + 'Blob::loaded'}))
        self.paths = self.it.run(f)
        ctx.note(f.qn, self.paths, self.it)
        self.bodies = {}
        self.skel = []
        for pa in self.paths:
            if pa.kind == 'backedge':
                its = self.items(pa)
                site = pa.events[-1].x['site']
                cut = [i for i, x in enumerate(its) if x.kind == 'loop' and x.ev.x['site'] == site]
                if cut:
                    self.bodies.setdefault(site, []).append((pa, its[cut[-1]], its[cut[-1] + 1:]))
        for pa in self.paths:
            if pa.kind == 'ret':
                self.skel.append((pa, self.items(pa)))

    def items(self, pa):
        cv = convs(pa.events)
        out = []
        op = 'operator<<' if self.enc else 'operator>>'
        for e in pa.events:
            if e.kind == 'loop':
                out.append(Item('loop', 0, None, e))
            elif e.kind in ('call', 'vcall') and e.name == DS + '::' + op:
                t = optype(e)
                vals = (e.x or {}).get('vals', e.args)
                if t in WIDTH:
                    if self.enc:
                        c, v = unconv(cv, vals[0])
                        out.append(Item('int', WIDTH[t], v, e, c))
                    else:
                        out.append(Item('int', WIDTH[t], e.args[0], e))
                elif t.startswith('std::vector<unsigned char') or t.startswith('std::basic_string'):
                    out.append(Item('bytes', 0, vals[0], e))
                else:
                    out.append(Item('obj:' + t, 0, vals[0] if self.enc else e.args[0], e))
            elif e.kind in ('call', 'vcall') and e.name.startswith(DS + '::') and \
                    short(e.name) in ('put_data', 'get_data_inplace'):
                out.append(Item('raw:' + short(e.name), 0, None, e))
            elif e.kind in ('call', 'vcall') and short(e.name) in ('serialize', 'unserialize'):
                out.append(Item('obj:' + e.name.rsplit('::', 1)[0], 0, e.obj, e))
        return out

    def full(self, items):
        """replace loop markers by repeat items"""
        out = []
        for x in items:
            if x.kind != 'loop':
                out.append(x)
                continue
            bs = self.bodies.get(x.ev.x['site'], [])
            if any(m.ev is x.ev for _, m, _ in bs):
                bs = [y for y in bs if y[1].ev is x.ev]
            for pa, mark, b in bs:
                r = Item('rep', 0, b, x.ev)
                r.body = pa
                r.mark = mark
                if b:
                    out.append(r)
        return out


def out_of(pa, item):
    """the value a decode operation delivered: the location's content right after it"""
    e = item.ev
    return ('s', None, e.node.get('_i', 0), 'out0', e.line)


def is_out(t, item):
    t = strip_st(t)
    return t[0] == 's' and t[2] == item.ev.node.get('_i', 0) and t[3] == 'out0'


def fieldname(t):
    """unqualified field of this that the value/location denotes"""
    t = strip_st(t)
    if t[0] == 'init':
        t = t[1]
    if t[0] == 'loc':
        t = t[1]
    if t[0] == 'f' and t[1] == THIS:
        return t[2]
    return None


def subst(t, a, b):
    if t == a:
        return b
    d, c = as_lin(t)
    if a in d:
        k = d.pop(a)
        bd, bc = as_lin(b)
        for x, y in bd.items():
            d[x] = d.get(x, 0) + k * y
        return from_lin({x: y for x, y in d.items() if y}, c + k * bc)
    return t


def address(l):
    """(pointer term) of an element location"""
    if l[0] in ('init', 'loc'):
        l = l[1]
    if l[0] == 'h':
        l = l[2]
    if l[0] == 'obj':
        return l[1]
    if l[0] == 'i':
        b = l[1][1] if l[1][0] == 'obj' else ('addr', l[1])
        return lin_add(b, l[2])
    return None


def norm_base(t):
    """array-decay, data(), begin() and &v[0] of a container all denote its first element"""
    d, c = as_lin(t)
    nd = {}
    for x, k in d.items():
        y = x
        if y[0] == 'init' and y[1][0] == 'f':
            y = ('base', y[1])
        elif y[0] == 'addr':
            l = y[1]
            if l[0] == 'i' and l[2] == C(0):
                l = l[1]
            y = ('base', l)
        elif y[0] == 'ap' and short(y[1]) in ('begin', 'data', 'cbegin', 'get') and len(y[2]) == 1:
            y = ('base', y[2][0][1] if y[2][0][0] == 'init' else y[2][0])
        nd[y] = nd.get(y, 0) + k
    return from_lin(nd, c)


def covers(ctx, w, rule, rep, exit_pa, elem, base, length, what):
    """the loop visits exactly base[0..length) in ascending order through element location `elem`"""
    e, pa, it = rep.ev, rep.body, w.it
    where = e.where
    l = elem[1] if elem[0] in ('init', 'loc') else elem
    if l[0] == 'h':
        l = l[2]
    if l[0] == 'i' and l[2][0] == 's' and l[2][3] == 'elem':
        # a range-for over the container itself
        return ctx.ob(rule, norm_base(('addr', l[1])) == base or ('base', l[1]) == base, where,
                      'the loop iterates over another container than %s' % what, pa)
    A = address(elem)
    ctx.require(A is not None, 'element access not understood at %s: %s' % (where, show(elem)))
    d, _ = as_lin(A)
    hs = [x for x in d if x[0] == 'h' and x[1] == e.x['site']]
    if not hs and [x for x in d if x[0] == 'h']:
        raise AnalysisBroken('element access not understood at %s' % where)
    if not ctx.ob(rule, len(hs) == 1 and d[hs[0]] == 1, where, 'the loop does not step through the elements of ' + what, pa):
        return False
    h = hs[0]
    ent, nxt = e.x['entry'].get(h[2]), pa.events[-1].x['next'].get(h[2])
    ok = ctx.ob(rule, ent is not None and norm_base(subst(A, h, ent)) == base, where,
                'the loop does not start at the first element of ' + what, pa)
    ok &= ctx.ob(rule, nxt == lin_add(h, C(1)), where, 'the loop does not advance by one element', pa)
    # bounds: h ranges up to entry + length
    lim = lin_add(ent, length) if ent is not None else None
    if lim is not None:
        ok &= ctx.ob(rule, it.holds(exit_pa.st.iv, le(lim, h)) or any(
            it.holds(x.facts, le(lim, h)) for x in exit_pa.events) or norm_holds(it, exit_pa.st.iv, lim, h), where,
            'the loop may stop before the last element of ' + what, exit_pa)
        f = [x for x in pa.events if x.kind != 'loop' and x.x != e.x]
        inb = any(it.holds(x.facts, lt(h, lim)) or it.holds(x.facts, pred_not(eq(h, lim))) or
                  norm_holds(it, x.facts, h, lim, -1) for x in pa.events[pa.events.index(e) + 1:])
        ok &= ctx.ob(rule, inb, where, 'the loop may run past the last element of ' + what, pa)
    return ok


def norm_holds(it, facts, a, b, k=0):
    """a - k... : a <= b (k=0) or a < b (k=-1), modulo the ways of naming the first element"""
    want = as_lin(norm_base(lin_add(a, b, -1)))
    for vp, iv in facts.items():
        if not isinstance(iv, tuple) or len(iv) < 2:
            continue
        t = from_lin(dict(vp), 0)
        nd, nc = as_lin(norm_base(t))
        wd, wc = want
        if nd == wd and nd:
            hi = iv[1]
            if hi is not None and hi + nc * 0 + wc - nc <= k:
                return True
        if {x: -y for x, y in nd.items()} == wd and nd:
            lo = iv[0]
            if lo is not None and -lo + wc + nc <= k:
                return True
    return False


# --------------------------------------------------------------------------------------------- pairs
def pair(ctx, cls):
    enc = [f for f in ctx.prog.fns(cls + '::serialize')]
    dec = [f for f in ctx.prog.fns(cls + '::unserialize')]
    ctx.require(enc and dec, 'no encoder/decoder of ' + cls)
    key = lambda f: f.fn.split('|')[2]
    out = []
    for e in enc:
        d = [x for x in dec if key(x) == key(e)]
        ctx.require(len(d) == 1, 'decoder of %s not found' % key(e))
        out.append((key(e), Wire(ctx, e, True), Wire(ctx, d[0], False)))
    return out


def mirror(ctx, what, w, pe, ie, v, pd, idd, skip_tail=0):
    """items of one encoder path against one decoder path; scalar fields only are matched, the rest by shape"""
    cvd = convs(pd.events)
    n = len(ie) - skip_tail
    ok = ctx.ob('layout', n == len(idd), w.f.where,
                'the encoder of %s emits %d items where the decoder takes %d' % (what, n, len(idd)), pe, sig=what)
    if not ok:
        return
    for k in range(n):
        a, b = ie[k], idd[k]
        if a.kind == 'rep' or b.kind == 'rep':
            ctx.ob('layout', a.kind == b.kind and [x.kind for x in a.val] == [x.kind for x in b.val] and
                   [x.width for x in a.val] == [x.width for x in b.val], a.ev.where,
                   'repeated item %d of %s has different shapes in encoder and decoder' % (k, what), pe)
            continue
        if not ctx.ob('layout', a.kind == b.kind and a.width == b.width, b.ev.where,
                      'item %d of %s is encoded as %r and decoded as %r' % (k, what, a, b), pd):
            continue
        if a.kind.startswith('raw:'):
            raise AnalysisBroken('raw stream access in the codec of %s' % what)
        fe = fieldname(a.val)
        if fe is None:
            continue
        if a.kind == 'int':
            got = pd.value(('f', THIS, fe))
            c, g = unconv(cvd, got) if got is not None else ('raw', ('undef',))
            if got is not None and is_out(got, b):
                c, g = 'raw', got
            ctx.ob('fields', is_out(g, b), b.ev.where,
                   'item %d of %s is encoded from %s but not decoded into it' % (k, what, short(fe)), pd, sig='%s-%d' % (what, k))
            ctx.ob('layout', c == a.conv or a.width == 1 or not is_out(g, b), b.ev.where,
                   'the byte order of %s differs between encoder and decoder' % short(fe), pd, sig='%s-%d' % (what, k))
        elif a.kind.startswith('obj:'):
            ctx.ob('fields', fieldname(b.val) == fe, b.ev.where,
                   'item %d of %s is encoded from %s but not decoded into it' % (k, what, short(fe)), pd, sig='%s-%d' % (what, k))


def one_int(ctx, rep):
    return len(rep.val) == 1 and rep.val[0].kind == 'int'


def stores(ctx, rep):
    """(location, value) written in the decode loop from the decoded item"""
    cv = convs(rep.body.events)
    it0 = rep.val[0]
    i0 = rep.body.events.index(it0.ev)
    for e in rep.body.events[i0 + 1:]:
        if e.kind == 'write':
            c, v = unconv(cv, e.args[0])
            if is_out(v, it0):
                return e.obj, c, e
    if it0.val and it0.val[0] == 'loc':
        return it0.val[1], 'raw', it0.ev
    return None, None, None


def check(ctx):
    blobs(ctx)
    bits(ctx)
    netaddr(ctx)
    header(ctx)
    hash_list(ctx)
    ping(ctx)
    primitives(ctx)
    copies(ctx)
    for r, n in (('layout', 12), ('fields', 6), ('range', 8), ('append', 4), ('take', 3), ('rest', 3), ('copy', 8)):
        ctx.need(r, n)


def blobs(ctx):
    for cls, w, v in pair(ctx, NS + 'Blob'):
        m = re.search(r'Blob<(\d+), ([a-z ]+)>', cls)
        ctx.require(m, 'unknown blob instance ' + cls)
        wd = WIDTH[m.group(2)]
        ln = C(int(m.group(1)) // 8 // wd)
        data = ('base', ('f', THIS, NS + 'Blob::data'))
        loaded = ('init', ('f', THIS, NS + 'Blob::loaded'))
        dsk = [(pa, v.full(x)) for pa, x in v.skel]
        esk = [(pa, w.full(x)) for pa, x in w.skel]
        for pa, its in esk:
            ok = ctx.ob('layout', len(its) == 1 and its[0].kind == 'rep' and one_int(ctx, its[0]) and
                        its[0].val[0].width == wd and its[0].val[0].conv == 'le', w.f.where,
                        'a blob is not encoded as its words in little-endian order', pa)
            if not ok:
                continue
            val = its[0].val[0].val
            if val == C(0):
                ctx.ob('flags', w.it.holds(pa.st.iv, pred_not(truth(loaded))), its[0].ev.where,
                       'a present value is encoded as zeros', pa)
                count_only(ctx, w, its[0], pa, ln)
            else:
                covers(ctx, w, 'range', its[0], pa, val, data, ln, 'the blob')
        for pa, its in dsk:
            ok = ctx.ob('layout', len(its) == 1 and its[0].kind == 'rep' and one_int(ctx, its[0]) and
                        its[0].val[0].width == wd, v.f.where, 'a blob is not decoded as its words', pa)
            ctx.ob('flags', pa.value(('f', THIS, NS + 'Blob::loaded')) == C(1), v.f.where,
                   'a decoded blob is not marked as present', pa)
            if not ok:
                continue
            l, c, e = stores(ctx, its[0])
            if ctx.ob('fields', l is not None, its[0].ev.where, 'a decoded word is not stored', its[0].body):
                ctx.ob('layout', c == 'le', e.where, 'blob words are not decoded as little-endian', its[0].body)
                covers(ctx, v, 'range', its[0], pa, l, data, ln, 'the blob')
        for f in ctx.prog.fns(NS + 'Blob::(ctor)') + ctx.prog.fns(NS + 'Blob::load'):
            if f.fn.split('|')[2] != cls or f.defaulted or f.copy or f.move:
                continue
            it = Interp(ctx.prog, Config(extra_opaque={ERR}))
            ps = it.run(f)
            ctx.note(f.qn, ps, it)
            for pa in ps:
                if pa.kind != 'ret':
                    continue
                x = pa.value(('f', THIS, NS + 'Blob::loaded'))
                zero = any(e.kind == 'call' and short(e.name) == 'memset' and e.args[1] == C(0) for e in pa.events)
                ctx.ob('flags', x == C(1) or (x == C(0) and zero), f.where,
                       'a constructed blob is neither marked present nor null and zeroed', pa)


def count_only(ctx, w, rep, exit_pa, ln):
    """a loop whose item does not depend on the element still has to run `ln` times"""
    e, pa = rep.ev, rep.body
    for l, nxt in pa.events[-1].x['next'].items():
        h = ('h', e.x['site'], l)
        ent = e.x['entry'].get(l)
        if ent is None or nxt != lin_add(h, C(1)):
            continue
        lim = lin_add(ent, ln)
        if (w.it.holds(exit_pa.st.iv, le(lim, h)) or norm_holds(w.it, exit_pa.st.iv, lim, h)):
            ctx.ob('range', True, e.where, '')
            return
    if e.name == 'rfor':
        return
    ctx.ob('range', False, e.where, 'a null value is not encoded with as many words as a present one', pa)


def evalt(t, env):
    """value of a term under an assignment of its leaves, or None"""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'lin':
        s = t[2]
        for x, m in t[1]:
            v = evalt(x, env)
            if v is None:
                return None
            s += m * v
        return s
    if k == 'narrow':
        v = evalt(t[2], env)
        return None if v is None else v & {1: 0xff, 2: 0xffff, 4: 0xffffffff, 8: (1 << 64) - 1}.get(WIDTH.get(t[1]), -1)
    if k == 'op':
        a, b = evalt(t[2], env), evalt(t[3], env)
        if a is None or b is None:
            return None
        try:
            return {'/': lambda: a // b, '%': lambda: a % b, '>>': lambda: a >> b, '<<': lambda: a << b, '&': lambda: a & b,
                    '|': lambda: a | b, '^': lambda: a ^ b, '*': lambda: a * b, '-': lambda: a - b, '+': lambda: a + b}[t[1]]()
        except Exception:
            return None
    if k == 'p' or k == 'pred':
        return None
    return None


def facts_allow(facts, env):
    """no recorded fact excludes the assignment"""
    for vp, iv in facts.items():
        if not isinstance(iv, tuple) or len(iv) != 3:
            continue
        s = 0
        for x, m in vp:
            v = evalt(x, env)
            if v is None:
                s = None
                break
            s += m * v
        if s is None:
            continue
        if (iv[0] is not None and s < iv[0]) or (iv[1] is not None and s > iv[1]) or s in iv[2]:
            return False
    return True


def is_ceil(facts, t, n, b):
    """t == ceil(n / b) for every n the facts allow: both sides evaluated on every residue"""
    seen = False
    for q in (0, 1, 2, 3, 17, 1000003):
        for r in range(b):
            x = q * b + r
            env = {n: x}
            if not facts_allow(facts, env):
                continue
            v = evalt(t, env)
            if v is None or v != -(-x // b):
                return False
            seen = True
    return seen


def bits(ctx):
    B = NS + '_Bits::'
    for cls, w, v in pair(ctx, NS + '_Bits'):
        m = re.search(r'_Bits<([a-z ]+)>', cls)
        wd = WIDTH[m.group(1)]
        F = lambda x: ('f', THIS, B + x)
        data = ('base', F('data'))
        for pa, its in [(pa, w.full(x)) for pa, x in w.skel]:
            null = w.it.holds(pa.st.iv, pred_not(truth(('init', F('data')))))
            its = [x for x in its if not (null and x.kind == 'rep')]
            ok = ctx.ob('layout', len(its) == (1 if null else 2) and its[0].kind == 'int' and its[0].width == 4 and
                        its[0].conv == 'le' and (null or (its[1].kind == 'rep' and one_int(ctx, its[1]) and
                                                          its[1].val[0].width == wd and its[1].val[0].conv == 'le')),
                        w.f.where, 'a bit vector is not encoded as its bit count and its words in little-endian order', pa)
            if not ok:
                continue
            ctx.ob('count', fieldname(its[0].val) == B + 'nbits', its[0].ev.where, 'the encoded count is not the bit count', pa)
            if not null:
                covers(ctx, w, 'range', its[1], pa, its[1].val[0].val, data, ('init', F('ndata')), 'the bit vector')
        for pa, its in [(pa, v.full(x)) for pa, x in v.skel]:
            ok = ctx.ob('layout', len(its) == 2 and its[0].kind == 'int' and its[0].width == 4 and its[1].kind == 'rep' and
                        one_int(ctx, its[1]) and its[1].val[0].width == wd, v.f.where,
                        'a bit vector is not decoded as its bit count and its words', pa)
            if not ok:
                continue
            nb = pa.value(F('nbits'))
            c, x = unconv(convs(pa.events), nb) if nb else (None, ('undef',))
            ctx.ob('fields', is_out(x, its[0]) and c == 'le', its[0].ev.where, 'the decoded bit count is not stored', pa)
            nd = pa.value(F('ndata'))
            ctx.ob('count', nd is not None and is_ceil(pa.st.iv, nd, nb, wd * 8), v.f.where,
                   'the number of decoded words is not the number that holds the bit count', pa)
            l, c, e = stores(ctx, its[1])
            if ctx.ob('fields', l is not None, its[1].ev.where, 'a decoded word is not stored', its[1].body):
                ctx.ob('layout', c == 'le', e.where, 'bit vector words are not decoded as little-endian', its[1].body)
                base = norm_base(pa.value(F('data')))
                covers(ctx, v, 'range', its[1], pa, l, base, nd, 'the bit vector')
        # every other way of making a bit vector keeps words = ceil(bits)
        for f in ctx.prog.fns(NS + '_Bits::(ctor)') + ctx.prog.fns(NS + '_Bits::load'):
            if f.fn.split('|')[2] != cls:
                continue
            it = Interp(ctx.prog, Config(extra_opaque={ERR}))
            ps = it.run(f)
            ctx.note(f.qn, ps, it)
            for pa in ps:
                if pa.kind != 'ret':
                    continue
                nb, nd = pa.value(F('nbits')), pa.value(F('ndata'))
                if nb is None or nd is None:
                    continue
                if strip_st(nb)[0] == 'init' and strip_st(nd)[0] == 'init' and strip_st(nb)[1][0] == 'f':
                    ok = strip_st(nb)[1][1] == strip_st(nd)[1][1] and strip_st(nb)[1][2] == B + 'nbits' and \
                        strip_st(nd)[1][2] == B + 'ndata'
                elif nb[0] == 'c' and nd[0] == 'c':
                    ok = nd[1] == -(-nb[1] // (8 * wd))
                else:
                    leaf = leaves(nb)
                    ok = len(leaf) == 1 and ceil_via(pa.st.iv, nd, nb, leaf.pop(), wd * 8)
                ctx.ob('count', ok, f.where, 'the word count of a bit vector does not match its bit count', pa)


def leaves(t):
    """the non-arithmetic subterms of a term"""
    if t[0] == 'c':
        return set()
    if t[0] == 'lin':
        return set().union(*[leaves(x) for x, _ in t[1]])
    if t[0] == 'narrow':
        return leaves(t[2])
    if t[0] == 'op':
        return leaves(t[2]) | leaves(t[3])
    return {t}


def ceil_via(facts, nd, nb, leaf, b):
    for x in range(0, 4 * b + 1):
        env = {leaf: x}
        if not facts_allow(facts, env):
            continue
        p, q = evalt(nd, env), evalt(nb, env)
        if p is None or q is None or p != -(-q // b):
            return False
    return True


def netaddr(ctx):
    for cls, w, v in pair(ctx, NS + 'NetAddr'):
        for pe, ie in w.skel:
            for pd, idd in v.skel:
                mirror(ctx, 'an address', w, pe, w.full(ie), v, pd, v.full(idd))
            fs = {fieldname(x.val) for x in w.full(ie)}
            ctx.ob('fields', {NS + 'NetAddr::ip', NS + 'NetAddr::port'} <= fs, w.f.where, 'an address field is not encoded', pe)


MB = NS + 'MsgBase::'


def header(ctx):
    encs = ctx.prog.fns(MB + 'serialize')
    decs = [f for f in ctx.prog.fns(MB + '(ctor)') if 'DataStream &&' in f.fn]
    ctx.require(encs and decs, 'message codec not found')
    nocs = ctx.prog.field(NS + 'MsgBase', 'checksum') is None
    want = {MB + 'magic', MB + 'opcode', MB + 'length'} | (set() if nocs else {MB + 'checksum'})
    for fe in encs:
        w = Wire(ctx, fe, True)
        fd = [f for f in decs if f.fn.split('|')[2] == fe.fn.split('|')[2]]
        ctx.require(fd, 'header decoder not found')
        v = Wire(ctx, fd[0], False)
        for pe, ie in w.skel:
            ie = w.full(ie)
            tail = ie and ie[-1].kind == 'bytes' and fieldname(ie[-1].val) == MB + 'payload'
            ctx.ob('layout', bool(tail), w.f.where, 'the message does not end with its payload', pe)
            head = ie[:-1] if tail else ie
            ctx.ob('fields', {fieldname(x.val) for x in head} == want, w.f.where, 'a header field is not encoded', pe)
            for x in head:
                ctx.ob('layout', x.kind == 'int' and (x.width == 1 or x.conv == 'le'), x.ev.where,
                       'header integers are not little-endian', pe)
            for pd, idd in v.skel:
                mirror(ctx, 'the message header', w, pe, head, v, pd, v.full(idd))
            hs = ctx.prog.gvars.get(MB + 'header_size', {}).get('cv')
            ctx.require(hs is not None, 'header size constant not found')
            ctx.ob('header-size', int(hs) == sum(x.width for x in head), w.f.where,
                   'the header size is %s but the encoder emits %d bytes before the payload' % (hs, sum(x.width for x in head)), pe)
            # the result is the bytes of the stream that was written
            r = [e for e in pe.events if e.kind == 'call' and e.name.startswith(DS + '::operator std::vector')]
            ctx.ob('layout', bool(r) and r[-1].obj == ie[0].ev.obj if ie else False, w.f.where,
                   'the encoded bytes are not what is returned', pe)
    n = 0
    for f in ctx.prog.fns(MB + '(ctor)') + ctx.prog.fns(MB + 'set_payload'):
        if f.copy or f.move or 'DataStream &&' in f.fn and f.qn.endswith('(ctor)'):
            continue
        it = Interp(ctx.prog, Config(extra_opaque={ERR}))
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        for pa in ps:
            if pa.kind != 'ret':
                continue
            F = lambda x: pa.value(('f', THIS, MB + x))
            pl = F('payload')
            wr = [e for e in pa.events if e.kind == 'write' and e.obj == ('f', THIS, MB + 'payload')]
            if not wr:
                continue
            n += 1
            val = wr[-1].args[0]
            L = F('length')
            a = L and (L[2] if L[0] == 'narrow' else L)
            sz = ap(a, 'size') if a else None
            ctx.ob('describe', bool(sz) and strip_st(sz[0]) in (strip_st(val), strip_st(pl) if pl else None), f.where,
                   'the length field is not set to the size of the payload', pa)
            if not f.qn.endswith('(ctor)'):
                continue
            # which payload and type: from the constructor's arguments
            rv = content_root(strip_st(val))
            ctx.ob('describe', rv is not None and rv[0] == 'p', f.where, 'the payload is not the one the message was built from', pa)
            if nocs:
                continue
            upd = [(i, e) for i, e in enumerate(pa.events) if e.kind == 'call' and short(e.name) == 'update']
            iw = pa.events.index(wr[-1])
            cs = F('checksum')
            ok = bool(upd) and upd[-1][0] > iw and strip_st(upd[-1][1].x['vals'][0]) == strip_st(val)
            ctx.ob('describe', ok, f.where, 'the checksum is not computed over the payload', pa)
            if ok:
                u = upd[-1][1]
                rs = [e for e in pa.events[iw:upd[-1][0]] if e.kind == 'call' and short(e.name) == 'reset' and e.obj == u.obj]
                fresh = [e for e in pa.events if e.kind == 'call' and e.name.endswith('(ctor)') and e.obj == u.obj]
                ctx.ob('describe', len([x for x in upd if x[0] > iw]) == 1 and bool(rs or fresh), u.where,
                       'the checksum depends on more than the payload', pa)
                dg = [e for e in pa.events[upd[-1][0]:] if e.kind == 'call' and short(e.name) == 'digest' and e.obj == u.obj]
                mv = [e for e in pa.events[upd[-1][0]:] if e.kind == 'call' and short(e.name) in ('memmove', 'memcpy')]
                ctx.ob('describe', bool(dg) and cs is not None and strip_st(cs)[0] == 's' and (
                    any(strip_st(cs)[2] == e.node.get('_i') for e in mv + dg)), f.where,
                    'the checksum field is not set from the payload digest', pa)
    ctx.require(n >= 3, 'message constructors not found')
    for f in [f for f in ctx.prog.fns(MB + '(ctor)') if not f.copy and not f.move and 'DataStream' not in f.fn]:
        it = Interp(ctx.prog, Config(extra_opaque={ERR}))
        for pa in it.run(f):
            if pa.kind != 'ret':
                continue
            mg = pa.value(('f', THIS, MB + 'magic'))
            ms = [x for x in f.params if x.get('n', '').strip('_') == 'magic']
            if ms:
                ctx.ob('describe', mg and strip_st(mg)[0] == 'init' and strip_st(mg)[1][0] == 'p' and
                       strip_st(mg)[1][2] == ms[0]['n'], f.where, 'the magic number given is not the one sent', pa)


def content_root(t):
    """the location a payload's bytes come from"""
    for x in subterms(t):
        if x[0] == 'init':
            l = x[1]
            while l and l[0] in ('f', 'i', 'obj') and l[0] != 'p':
                l = l[1]
                if isinstance(l, tuple) and l and l[0] == 'init':
                    l = l[1]
            return l
    return None


def hash_list(ctx):
    es, ds = ctx.prog.fns(MB + 'gen_hash_list'), ctx.prog.fns(MB + 'parse_hash_list')
    ctx.require(es and ds, 'hash list codec not found')
    w, v = Wire(ctx, es[0], True), Wire(ctx, ds[0], False)
    P = lambda f: [x for x in f.params if 'vector' in x.get('t', '')]
    for pa, its in [(pa, w.full(x)) for pa, x in w.skel]:
        ok = ctx.ob('layout', len(its) == 2 and its[0].kind == 'int' and its[0].width == 4 and its[0].conv == 'le' and
                    its[1].kind == 'rep' and len(its[1].val) == 1 and its[1].val[0].kind.startswith('obj:' + NS + 'Blob'),
                    w.f.where, 'a hash list is not encoded as its count and its hashes', pa)
        if not ok:
            continue
        a = its[0].val
        a = a[2] if a[0] == 'narrow' else a
        sz = ap(a, 'size')
        ctx.ob('count', bool(sz) and strip_st(sz[0])[0] == 'init' and strip_st(sz[0])[1][0] == 'p', its[0].ev.where,
               'the encoded count is not the size of the list', pa)
        vec = strip_st(sz[0])[1] if sz else None
        if vec:
            covers_list(ctx, w, its[1], pa, its[1].val[0].val, vec, a)
    for pa, its in [(pa, v.full(x)) for pa, x in v.skel]:
        ok = ctx.ob('layout', len(its) == 2 and its[0].kind == 'int' and its[0].width == 4 and
                    its[1].kind == 'rep' and len(its[1].val) == 1 and its[1].val[0].kind.startswith('obj:' + NS + 'Blob'),
                    v.f.where, 'a hash list is not decoded as its count and its hashes', pa)
        if not ok:
            continue
        cv = convs(pa.events)
        rz = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'resize']
        grow = [e for e in its[1].body.events if e.kind == 'call' and short(e.name) in ('push_back', 'emplace_back')]
        if rz:
            c, x = unconv(cv, rz[-1].x['vals'][0])
            ctx.ob('count', is_out(x, its[0]) and c == 'le', rz[-1].where,
                   'the list is not sized to the decoded count', pa)
            covers_list(ctx, v, its[1], pa, its[1].val[0].val, rz[-1].obj, rz[-1].x['vals'][0])
        else:
            ctx.ob('count', bool(grow), v.f.where, 'the list is not sized to the decoded count', pa)


def covers_list(ctx, w, rep, pa, elem, vec, n):
    l = elem[1] if elem[0] in ('init', 'loc') else elem
    if l[0] == 'h':
        l = l[2]
    if l[0] == 'i' and l[2][0] == 's' and l[2][3] == 'elem':
        ctx.ob('range', l[1] == vec, rep.ev.where, 'the loop iterates over another list', rep.body)
        return
    covers(ctx, w, 'range', rep, pa, elem, ('base', vec), n, 'the list')


def ping(ctx):
    PN = NS + 'PeerNetwork::'
    MP = PN + 'MsgPing'
    cs = [f for f in ctx.prog.fns(MP + '::(ctor)') if not f.copy and not f.move and not f.defaulted]
    keys = {f.fn.split('|')[2] for f in cs}
    dec = [f for f in cs if 'DataStream &&' in f.fn]
    enc = [f for f in cs if f not in dec]
    ctx.require(dec and len(enc) >= 2, 'handshake message codec not found')
    key = dec[0].fn.split('|')[2]
    v = Wire(ctx, dec[0], False)
    for f in enc:
        if f.fn.split('|')[2] != key:
            continue
        w = Wire(ctx, f, True)
        for pe, ie in w.skel:
            ie = w.full(ie)
            ok = ctx.ob('layout', bool(ie) and ie[0].kind == 'int' and ie[0].val[0] == 'c' and
                        all(x.ev.obj == ('f', THIS, MP + '::serialized') for x in ie), f.where,
                        'a handshake message does not start with its tag', pe)
            if not ok:
                continue
            tag = ie[0].val[1]
            hit = 0
            for pd, idd in v.skel:
                idd = v.full(idd)
                if not idd or idd[0].kind != 'int':
                    ctx.ob('layout', False, v.f.where, 'the handshake decoder does not read the tag first', pd)
                    continue
                outv = [x for vp in pd.st.iv for x, _ in vp if is_out(x, idd[0])]
                if outv and not v.it.holds(pd.st.iv, truth(outv[0])) and not v.it.holds(pd.st.iv, pred_not(truth(outv[0]))):
                    if not facts_allow(pd.st.iv, {outv[0]: tag}):
                        continue
                elif outv and v.it.holds(pd.st.iv, truth(outv[0])) != bool(tag):
                    continue
                hit += 1
                mirror(ctx, 'a handshake message (tag %d)' % tag, w, pe, ie, v, pd, idd)
                if len(idd) != len(ie):
                    continue
                cvd = convs(pd.events)
                F = lambda x: pd.value(('f', THIS, MP + '::' + x))
                for k, x in enumerate(ie[1:], 1):
                    b = idd[k]
                    src = strip_st(x.val)
                    ctx.ob('fields', src[0] == 'init' and src[1][0] == 'p', x.ev.where,
                           'a handshake message does not carry what it was given', pe)
                    if x.kind.startswith('obj:'):
                        ctx.ob('fields', fieldname(b.val) == MP + '::claimed_addr', b.ev.where,
                               'the claimed address is not decoded into its field', pd)
                    else:
                        got = F('nonce')
                        c, g = unconv(cvd, got) if got is not None and not is_out(got, b) else ('raw', got)
                        ctx.ob('fields', g is not None and is_out(g, b), b.ev.where, 'the nonce is not decoded into its field', pd)
                        ctx.ob('layout', c == x.conv, b.ev.where, 'the byte order of the nonce differs', pd)
                        ctx.ob('layout', x.conv == 'le', x.ev.where, 'the nonce is not little-endian', pe)
                if len(ie) == 1:
                    c, g = unconv(cvd, F('nonce')) if F('nonce') is not None else ('raw', ('undef',))
                    ctx.ob('fields', g == C(0), v.f.where, 'a plain handshake message decodes with a nonce of its own', pd)
            ctx.ob('layout', hit > 0, v.f.where, 'no decoder path accepts tag %d' % tag, pe)
    # the pong variants carry exactly what the corresponding ping carries
    MO = PN + 'MsgPong'
    n = 0
    for f in ctx.prog.fns(MO + '::(ctor)'):
        if f.copy or f.move or f.defaulted:
            continue
        g = [x for x in cs if x.fn.split('|')[2] == f.fn.split('|')[2].replace('MsgPong', 'MsgPing') and
             x.fn.split('|')[1] == f.fn.split('|')[1]]
        if not g:
            continue
        n += 1
        dd = 'DataStream &&' in f.fn
        a, b = Wire(ctx, f, not dd), Wire(ctx, g[0], not dd)
        sg = lambda w: sorted(repr([(x.sig(), show(strip_st(x.val)) if not dd else '') for x in w.full(i)]).replace('MsgPong', 'MsgPing')
                              for p, i in w.skel)
        ctx.ob('layout', sg(a) == sg(b), f.where, 'the answer is encoded differently from the request', None)
    ctx.require(n >= 2, 'handshake answer codec not found')


# --------------------------------------------------------------------------------------------- stream primitives
BUF = ('f', THIS, DS + '::buffer')
OFF = ('f', THIS, DS + '::offset')
B0, O0 = ('init', BUF), ('init', OFF)


def appended(pa):
    """(source, byte count) appended to the buffer on this path, or None"""
    res = []
    grown = None
    for e in pa.events:
        if e.kind == 'call' and e.obj == BUF:
            v = (e.x or {}).get('vals', e.args)
            if short(e.name) == 'resize':
                grown = lin_add(v[0], ('ap', 'size', (B0,)), -1)
            elif short(e.name) == 'insert':
                at = v[0]
                a = ap(at, 'end') or ap(at, 'cend')
                if not a or len(v) < 3:
                    return None
                res.append((v[1], v[2], e))
            elif short(e.name) in ('push_back', 'emplace_back'):
                res.append((v[0], C(1), e))
        elif grown is not None and e.kind == 'write' and e.obj and e.obj[0] == 'obj' and at_tail(e.obj[1], grown):
            res.append((e.args[0], grown, e))
        elif grown is not None and e.kind == 'call' and short(e.name) in ('memmove', 'memcpy'):
            v = (e.x or {}).get('vals', e.args)
            if not at_tail(v[0], grown) or v[2] != grown:
                return None
            res.append((v[1], v[2], e))
        elif grown is not None and e.kind == 'call' and short(e.name) in ('copy', 'copy_n'):
            v = (e.x or {}).get('vals', e.args)
            if len(v) == 3 and at_tail(v[2], grown):
                res.append((v[0], grown, e))
            else:
                return None
    return res[0] if len(res) == 1 else None


def at_tail(p, n):
    """p points n bytes before the end of the buffer, or at its old end"""
    d, c = as_lin(p)
    for x in d:
        if x[0] == 'ap' and short(x[1]) in ('end', 'cend') and d[x] == 1 and lin_add(p, x, -1) == lin_add(C(0), n, -1):
            return True
        if x[0] == 'ap' and short(x[1]) in ('begin', 'data', 'cbegin') and d[x] == 1:
            r = lin_add(p, x, -1)
            if ap(r, 'size') and ap(r, 'size')[0] == B0:
                return True
    if p[0] == 'addr' and p[1][0] == 'i' and ap(p[1][2], 'size') and ap(p[1][2], 'size')[0] == B0:
        return True
    return False


def pointer_to(v, loc):
    return v == ('addr', loc)


def at_offset(t, off=O0, buf=BUF):
    """pointer to the byte at the read position"""
    if t[0] == 'addr' and t[1][0] == 'i' and t[1][2] == off and t[1][1] == buf:
        return True
    d, c = as_lin(t)
    base = [x for x in d if x[0] == 'ap' and short(x[1]) in ('begin', 'data', 'cbegin') and x[2][0] == ('init', buf)]
    return len(base) == 1 and d[base[0]] == 1 and lin_add(t, base[0], -1) == off


def primitives(ctx):
    prog = ctx.prog

    def run(f):
        it = Interp(prog, Config(extra_opaque={ERR}))
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        return it, [p for p in ps if p.kind == 'ret']
    for f in prog.fns(DS + '::operator<<'):
        t = f.fn.split('|')[1]
        t = t[t.index('(') + 1:t.rindex(')')].replace('const ', '').rstrip('& ').strip()
        it, ps = run(f)
        for pa in ps:
            pn = f.params[0]['n']
            P = ('p', DS + '::operator<<', pn)
            if t in WIDTH:
                a = appended(pa)
                ok = bool(a)
                if ok and a[2].kind == 'write':
                    ok = a[0] == ('init', P) and a[1] == C(WIDTH[t]) and a[2].obj is not None
                elif ok and short(a[2].name) == 'insert':
                    ok = pointer_to(a[0], P) and lin_add(a[1], a[0], -1) == C(WIDTH[t])
                elif ok and short(a[2].name) in ('memmove', 'memcpy', 'copy', 'copy_n'):
                    ok = pointer_to(a[0], P) and a[1] == C(WIDTH[t])
                elif ok:
                    ok = WIDTH[t] == 1 and a[0] == ('init', P)
                ctx.ob('append', ok, f.where, 'writing a %s does not append exactly its %d bytes' % (t, WIDTH[t]), pa, sig=t)
                ctx.ob('append', pa.value(OFF) in (None, O0), f.where, 'writing moves the read position', pa)
            elif t.startswith('std::vector<unsigned char') or t.startswith('std::basic_string'):
                whole(ctx, f, pa, P)
            elif t == 'char *':
                a = appended(pa)
                ln = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'strlen']
                ctx.ob('append', bool(a and ln) and a[0] == ('init', P) and
                       (a[1] == ln[0].res or lin_add(a[1], a[0], -1) == ln[0].res), f.where,
                       'writing a C string does not append exactly its characters', pa)
            else:
                sc = [e for e in pa.events if e.kind in ('call', 'vcall') and short(e.name) == 'serialize']
                rz = [e for e in pa.events if e.obj == BUF]
                ctx.ob('append', len(sc) == 1 or (not sc and rz) or not pa.events, f.where,
                       'writing an object does not encode it once', pa)
    for f in prog.fns(DS + '::put_data'):
        it, ps = run(f)
        for pa in ps:
            if len(f.params) == 2:
                b, e_ = [('init', ('p', DS + '::put_data', x['n'])) for x in f.params]
                a = appended(pa)
                n = lin_add(e_, b, -1)
                ctx.ob('append', bool(a) and a[0] == b and (a[1] == n or (a[1] == e_ and short(a[2].name) == 'insert')), f.where,
                       'appending a range does not append exactly its bytes', pa)
            else:
                whole(ctx, f, pa, ('p', DS + '::put_data', f.params[0]['n']))
    for f in prog.fns(DS + '::operator>>'):
        t = f.fn.split('|')[1]
        t = t[t.index('(') + 1:t.rindex(')')].replace('const ', '').rstrip('& ').strip()
        if t not in WIDTH:
            continue
        it, ps = run(f)
        P = ('p', DS + '::operator>>', f.params[0]['n'])
        for pa in ps:
            wd = WIDTH[t]
            ws = [e for e in pa.events if e.kind == 'write' and e.obj == P]
            ok = len(ws) == 1 and read_at_offset(ws[0].args[0])
            cp = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('memmove', 'memcpy')]
            if cp and not ws:
                v = cp[0].x['vals']
                ok = len(cp) == 1 and pointer_to(v[0], P) and at_offset(v[1]) and v[2] == C(wd)
            ctx.ob('take', ok, f.where, 'reading a %s does not deliver the bytes at the read position' % t, pa, sig=t)
            ctx.ob('take', pa.value(OFF) == lin_add(O0, C(wd)), f.where,
                   'reading a %s does not advance the read position by %d' % (t, wd), pa, sig=t + 'n')
            ctx.ob('take', pa.value(BUF) in (None, B0), f.where, 'reading changes the data', pa)
    for f in prog.fns(DS + '::get_data_inplace'):
        it, ps = run(f)
        n = ('init', ('p', DS + '::get_data_inplace', f.params[0]['n']))
        for pa in ps:
            ctx.ob('take', at_offset(pa.ret), f.where, 'in-place reading does not deliver the bytes at the read position', pa)
            ctx.ob('take', pa.value(OFF) == lin_add(O0, n), f.where, 'in-place reading does not advance by the length taken', pa)
    for f in prog.fns(DS + '::data'):
        it, ps = run(f)
        for pa in ps:
            ctx.ob('rest', at_offset(pa.ret), f.where, 'the data pointer is not the read position', pa)
    for f in prog.fns(DS + '::size'):
        it, ps = run(f)
        for pa in ps:
            ctx.ob('rest', pa.ret == lin_add(('ap', 'size', (B0,)), O0, -1), f.where, 'the size is not what remains to be read', pa)
    for f in [f for q in prog.by_qn for f in prog.fns(q) if q.startswith(DS + '::operator std::')]:
        it, ps = run(f)
        for pa in ps:
            r = strip_st(pa.ret)
            if r[0] == 'rv':
                r = pa.value(r[1])
                r = strip_st(r) if r else ('undef',)
            ok = r == B0 and it.holds(pa.st.iv, eq(O0, C(0)))
            if r[0] == 'ap' and r[1].endswith('(ctor)') and len(r[2]) >= 2:
                ok = at_offset(r[2][0]) and ((ap(r[2][1], 'end') or ap(r[2][1], 'cend') or (None,))[0] == B0)
            ctx.ob('rest', ok, f.where, 'the bytes of the stream are not those between the read position and the end', pa)


def read_at_offset(t):
    t = strip_st(t)
    if t[0] != 'init':
        return False
    l = t[1]
    if l[0] == 'i':
        return l[1] == BUF and l[2] == O0
    if l[0] == 'obj':
        return at_offset(l[1])
    return False


def whole(ctx, f, pa, P):
    a = appended(pa)
    ok = bool(a)
    if ok and short(a[2].name) == 'insert':
        b, e_ = ap(a[0], 'begin') or ap(a[0], 'cbegin'), ap(a[1], 'end') or ap(a[1], 'cend')
        ok = bool(b and e_) and b[0] == ('init', P) and e_[0] == ('init', P)
    elif ok:
        b, n = ap(a[0], 'begin') or ap(a[0], 'data'), ap(a[1], 'size')
        ok = bool(b and n) and b[0] == ('init', P) and n[0] == ('init', P)
    ctx.ob('append', ok, f.where, 'appending a sequence does not append exactly its bytes', pa)


# --------------------------------------------------------------------------------------------- copies
def copies(ctx):
    for cls in ('MsgBase', 'DataStream', '_Bits'):
        q = NS + cls
        rec = ctx.prog.rec_by_qn.get(q)
        ctx.require(rec is not None, 'class %s not found' % cls)
        flds = [x['n'] for x in rec['fields'] if not x.get('static')]
        for f in ctx.prog.fns(q + '::(ctor)') + ctx.prog.fns(q + '::operator=') + ctx.prog.fns(q + '::swap'):
            if f.defaulted or not (f.copy or f.move or f.qn.endswith('swap')) and not f.qn.endswith('operator='):
                continue
            it = Interp(ctx.prog, Config(extra_opaque={ERR}))
            ps = it.run(f)
            ctx.note(f.qn, ps, it)
            o = ('p', f.qn, f.params[0]['n'])
            for pa in ps:
                if pa.kind != 'ret':
                    continue
                if f.qn.endswith('operator=') and not pa.events and not f.defaulted:
                    same = it.holds(pa.st.iv, eq(('addr', THIS), ('addr', o)))
                    ctx.ob('copy', same, f.where, 'an assignment does nothing for distinct objects', pa)
                    continue
                for x in flds:
                    got = pa.value(('f', THIS, q + '::' + x))
                    want = ('init', ('f', o, q + '::' + x))
                    ok = got is not None and strip_st(got) == want
                    if cls == '_Bits' and x == 'data':
                        mv = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('memmove', 'memcpy')]
                        ok = len(mv) == 1 and mv[0].x['vals'][0] == got and \
                            mv[0].x['vals'][1] == ('init', ('f', o, q + '::data')) and got[0] != 'init'
                        nw = [e for e in pa.events if e.kind == 'new' and e.res == got]
                        ok = ok and len(nw) == 1 and evaln(mv[0].x['vals'][2], nw[0])
                    ctx.ob('copy', ok, f.where, '%s of %s: field %s is not taken over' % (short(f.qn), cls, x), pa,
                           sig='%s:%s:%s' % (cls, f.fn.split('|')[-1].split(':')[0] and short(f.qn), x))
                    if f.qn.endswith('swap'):
                        got = pa.value(('f', o, q + '::' + x))
                        ctx.ob('copy', got is not None and strip_st(got) == ('init', ('f', THIS, q + '::' + x)), f.where,
                               'swap of %s: field %s is not exchanged' % (cls, x), pa)


def evaln(nbytes, new):
    """byte count is element count times element size"""
    t = new.name if new.name in WIDTH else short(new.name)
    if t not in WIDTH or not new.args:
        return True
    d, c = as_lin(nbytes)
    d2, c2 = as_lin(new.args[0])
    w = WIDTH[t]
    return {k: v * w for k, v in d2.items()} == d and c2 * w == c
