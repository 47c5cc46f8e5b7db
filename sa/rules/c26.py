"""Text that people write: addresses, options, hexadecimal, formatted strings."""
from ..interp import Interp, Config, St, pred_not
from .peers import *
TITLE = 'Text becomes exactly the value it spells, or the documented error'
RULES = {
    'number': 'a number is taken from a text only if the whole text spells it: by a parser that reports where it stopped, compared with the length before the value is kept; the value is not changed on the way',
    'refused': 'a text that spells no number, or none that fits, is refused with the error of the library; the parser\'s own exceptions do not escape, and the old value stays',
    'address': 'of "host:port", the text before the first colon is resolved and the text behind it is the port, between 0 and 65535 and in network order; anything else is refused as an invalid address',
    'same': 'two addresses are equal if and only if both fields are, unequal otherwise, and equal ones have equal hash values; converting a socket address keeps both fields',
    'hex-out': 'every byte that is not consumed yet is written as two hexadecimal digits',
    'hex-in': 'hexadecimal text of odd length or with any other character is refused; otherwise every pair becomes one byte and the stream is to be read from its start',
    'trim': 'trimming gives the text from its first to its last character that is no white space, nothing if there is none',
    'split': 'splitting gives the texts between the delimiters in order, including the last one',
    'format': 'a formatted string is as long as the formatted text; an argument list is not formatted twice',
    'register': 'registering an option whose name is taken is refused and changes nothing; otherwise the option is found under its name, its letter and its number',
    'apply': 'an option is given to its value by its own action, once, with the text given; another action is refused',
    'line': 'of every line of a file with "=" and a known name, the trimmed text behind the first "=" is given to the option named by the trimmed text before it; a line that does not fit is refused',
    'choose': 'every option recognised on the command line is applied with its argument, by number or letter; one that is not recognised is refused; the configuration file comes first',
}
EXPLAIN = ('All paths through the functions that turn text into values and back, with the parsers of the standard library replaced by their contract: they return a value and the position where they '
           'stopped, or raise one of two exceptions.')
ASSUME = ['the contracts of std::stoi and its family, getaddrinfo, getopt_long, vsnprintf, isxdigit and the string class', 'what is written with parsers other than these gives no obligation',
          'the text form of an address and what the system resolver makes of a host name are not analysed']
ERR = NS + 'SalticidaeError::(ctor)'
THIS = ('obj', ('this',))
NPOS = ('init', ('g', 'std::basic_string::npos'))
PARSE = ('stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stof', 'stod', 'stold')
BLIND = ('atoi', 'atol', 'atoll', 'atof', 'sscanf', 'vsscanf')
CFG = NS + 'Config::'


def sto(e):
    return e.kind == 'call' and e.name in ['std::' + p for p in PARSE]


def run(ctx, f, **kw):
    extra = kw.pop('opaque', set()) | {ERR}
    it = Interp(ctx.prog, Config(extra_opaque=extra, max_states=20000, **kw))
    ps = it.run(f)
    ctx.note(f.qn, ps, it)
    return it, ps


def par(f, i):
    return ('p', f.qn, f.params[i]['n'])


def text_of(v):
    """the string behind a pointer to its characters, or the string itself"""
    if v[0] == 'ap' and short(v[1]) in ('c_str', 'data') and len(v[2]) == 1:
        return v[2][0]
    if v[0] == 'ap' and short(v[1]) == '(ctor)' and 'basic_string' in v[1] and v[2] and v[2][0][0] == 'ap' and short(v[2][0][1]) in ('c_str', 'data') and (len(v[2]) < 2 or 'allocator' in repr(v[2][1])[:40]):
        return v[2][0][2][0]
    return v


def whole(it, iv, e):
    """the parser stopped at the end of its text"""
    a = vals(e)
    if len(a) < 2 or a[1][0] == 'null':
        return False
    text = text_of(a[0])
    outs = [t for k in iv for t, _ in k if t[0] == 's' and len(t) > 4 and t[:1] + t[1:3] == ('s',) + e.res[1:3] and t[3] == 'out1']
    return any(it.holds(iv, eq(('ap', 'size', (text,)), o)) or it.holds(iv, le(('ap', 'size', (text,)), o)) for o in outs)


def base(e):
    a = vals(e)
    return len(a) < 3 or a[2] == C(10)


def code(ctx, name):
    for e in ctx.prog.enums.values() if isinstance(ctx.prog.enums, dict) else ctx.prog.enums:
        for x in e['e']:
            if x['n'] == name:
                return int(x['v'])
    return None


def raises(pa):
    """the error code of a path that ends with an error of the library"""
    if pa.kind != 'throw' or not pa.ret or pa.ret[0] != NS + 'SalticidaeError':
        return None
    cs = [e for e in pa.events if e.kind == 'call' and e.name == ERR]
    return vals(cs[-1])[0] if cs and vals(cs[-1]) else ('?',)


def check(ctx):
    numbers(ctx)
    address(ctx)
    same(ctx)
    hexadecimal(ctx)
    strings(ctx)
    formatting(ctx)
    register(ctx)
    apply(ctx)
    line(ctx)
    choose(ctx)
    ctx.require(sum(o[0] for o in ctx.obs.values()) >= 25, 'the functions that parse text are not found')


# ---------------------------------------------------------------- numbers
def throwing(e):
    return ('std::invalid_argument', 'std::out_of_range') if sto(e) else ()


def derived(prog, cls):
    return [c for c in prog.rec_by_qn if cls in prog.bases(c) and c != cls]


def numbers(ctx):
    prog = ctx.prog
    bad = code(ctx, 'SALTI_ERROR_OPTVAL_INVALID')
    for cls in sorted(derived(prog, CFG + 'OptVal')):
        for f in prog.methods_of(cls):
            n = short(f.qn)
            if f.body is None or n not in ('set_val', 'append', 'switch_on'):
                continue
            it, ps = run(ctx, f, may_throw=throwing, opaque={CFG + 'load', NS + 'Logger::info'})
            name = short(cls) + '.' + n
            for pa in ps:
                ws = [e for e in pa.events if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[1] == THIS]
                pr = [e for e in pa.events if sto(e)]
                bl = [e for e in pa.events if e.kind == 'call' and short(e.name) in BLIND]
                if pa.kind == 'throw':
                    ctx.ob('refused', raises(pa) is not None, f.where, '%s lets %s escape' % (name, pa.ret and pa.ret[0]), path=pa, sig=name + ':escape')
                    ctx.ob('refused', not ws, f.where, '%s changes the value although it refuses the text' % name, path=pa, sig=name + ':changed')
                    if raises(pa) is not None and pr:
                        ctx.ob('refused', raises(pa) == C(bad), f.where, '%s reports another error than an invalid value' % name, path=pa, sig=name + ':code')
                    continue
                if pa.kind != 'ret':
                    continue
                if n == 'switch_on':
                    ctx.ob('apply', len(ws) == 1 and vals(ws[0])[0] == C(1), f.where, '%s does not set the flag' % name, path=pa, sig=name)
                    continue
                if not f.params:
                    continue
                p = ('init', par(f, 0))
                if bl:
                    ctx.ob('number', False, bl[0].where, '%s parses the text without finding out whether it is a number' % name, path=pa, sig=name + ':blind')
                elif pr:
                    for e in pr:
                        ctx.ob('number', whole(it, pa.st.iv, e) and base(e), e.where, '%s accepts a text of which only the beginning is a number' % name, path=pa, sig=name + ':rest')
                        ctx.ob('number', text_of(vals(e)[0]) == p, e.where, '%s does not parse the text given' % name, path=pa, sig=name + ':text')
                    if any(short(e.name) == 'stof' for e in pr) and any('double' in str(x) for x in prog.rec_by_qn[cls].get('fields', [])):
                        ctx.ob('number', False, pr[0].where, '%s parses a number of less precision' % name, path=pa, sig=name + ':precision')
                    ctx.ob('number', len(ws) >= 1 and any(vals(ws[-1])[0] == e.res for e in pr), f.where, '%s does not keep the number it parsed' % name, path=pa, sig=name + ':value')
                elif n == 'append':
                    ins = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('push_back', 'emplace_back') and e.obj and e.obj[0] == 'f' and e.obj[1] == THIS]
                    ctx.ob('apply', len(ins) == 1 and vals(ins[0])[0] == p, f.where, '%s does not append the text given' % name, path=pa, sig=name)
                else:
                    fld = [x for x in prog.rec_by_qn[cls].get('fields', []) if 'basic_string' in str(x)]
                    if fld or ws:
                        ctx.ob('apply', len(ws) >= 1 and vals(ws[-1])[0] == p, f.where, '%s does not keep the text given' % name, path=pa, sig=name)


# ---------------------------------------------------------------- addresses
def ctors(ctx, cls, *types):
    return [f for f in ctx.prog.fns(cls + '::(ctor)') if f.body is not None and len(f.params) == len(types) and all(t in p['t'] for t, p in zip(types, f.params))]


def address(ctx):
    bad = code(ctx, 'SALTI_ERROR_NETADDR_INVALID')
    for f in ctors(ctx, NS + 'NetAddr', 'basic_string'):
        it, ps = run(ctx, f, may_throw=throwing)
        text = ('init', par(f, 0))
        for pa in ps:
            if pa.kind == 'throw':
                ctx.ob('address', raises(pa) == C(bad), f.where, 'a text that is no address is not refused as an invalid address (%s)' % (pa.ret and pa.ret[0]), path=pa, sig='refused')
            if pa.kind != 'ret':
                continue
            pr = [e for e in pa.events if sto(e)]
            bl = [e for e in pa.events if e.kind == 'call' and short(e.name) in BLIND]
            rs = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('getaddrinfo', 'gethostbyname', 'inet_pton', 'inet_aton', 'inet_addr')]
            if bl:
                ctx.ob('number', False, bl[0].where, 'the port is parsed without finding out whether it is a number', path=pa, sig='port:blind')
            for e in pr:
                ctx.ob('number', whole(it, pa.st.iv, e) and base(e), e.where, 'a port of which only the beginning is a number is accepted', path=pa, sig='port:rest')
                x = text_of(vals(e)[0])
                ctx.ob('address', behind(x, text), e.where, 'the port is not the text behind the first colon', path=pa, sig='port:text')
                lo, hi = it.holds(pa.st.iv, le(C(0), e.res)), it.holds(pa.st.iv, le(e.res, C(0xffff)))
                ctx.ob('address', lo and hi, e.where, 'a port outside 0..65535 is accepted', path=pa, sig='port:range')
                port = pa.st.cells.get(('f', THIS, NS + 'NetAddr::port'))
                ctx.ob('address', port is not None and netorder(pa, port, e.res), e.where, 'the port kept is not the port given in network order', path=pa, sig='port:value')
            for e in rs:
                i = 1 if short(e.name) in ('inet_pton',) else 0
                x = text_of(vals(e)[i])
                ctx.ob('address', before(x, text), e.where, 'the host is not the text before the first colon', path=pa, sig='host:text')
    for f in ctors(ctx, NS + 'NetAddr', 'basic_string', 'unsigned short') + ctors(ctx, NS + 'NetAddr', 'basic_string', 'uint16_t'):
        it, ps = run(ctx, f)
        for pa in ps:
            if pa.kind == 'throw':
                ctx.ob('address', raises(pa) == C(bad), f.where, 'a host that is not resolved is not refused as an invalid address', path=pa, sig='host:refused')
            if pa.kind != 'ret':
                continue
            port = pa.st.cells.get(('f', THIS, NS + 'NetAddr::port'))
            ctx.ob('address', port is not None and netorder(pa, port, ('init', par(f, 1))), f.where, 'the port kept is not the port given in network order', path=pa, sig='given:port')
            for e in pa.events:
                if e.kind == 'call' and short(e.name) in ('getaddrinfo', 'gethostbyname'):
                    ctx.ob('address', text_of(vals(e)[0]) == ('init', par(f, 0)), e.where, 'the host resolved is not the one given', path=pa, sig='given:host')
                    ip = pa.st.cells.get(('f', THIS, NS + 'NetAddr::ip'))
                    ok = short(e.name) != 'getaddrinfo' or it.holds(pa.st.iv, eq(e.res, C(0)))
                    ctx.ob('address', ok and ip is not None and ('out3' in repr(ip) if short(e.name) == 'getaddrinfo' else repr(e.res) in repr(ip)), e.where,
                           'the address kept is not the one the resolver gave, or the resolver failed', path=pa, sig='given:ip')
    for f in ctors(ctx, NS + 'NetAddr', 'unsigned int', 'unsigned short') + ctors(ctx, NS + 'NetAddr', 'uint32_t', 'uint16_t'):
        it, ps = run(ctx, f)
        for pa in ps:
            if pa.kind == 'ret':
                got = [pa.st.cells.get(('f', THIS, NS + 'NetAddr::' + x)) for x in ('ip', 'port')]
                ctx.ob('same', got == [('init', par(f, 0)), ('init', par(f, 1))], f.where, 'the address does not have the fields given', path=pa, sig='fields')


def first_colon(v, text):
    return v[0] == 'ap' and short(v[1]) in ('find', 'find_first_of') and v[2][0] == text and v[2][1] in (('str', ':'), C(58)) and (len(v[2]) < 3 or v[2][2] == C(0))


def before(x, text):
    return x[0] == 'ap' and short(x[1]) == 'substr' and x[2][0] == text and x[2][1] == C(0) and first_colon(x[2][2], text)


def behind(x, text):
    if not (x[0] == 'ap' and short(x[1]) == 'substr' and x[2][0] == text):
        return False
    p = x[2][1]
    if not (p[0] == 'lin' and p[2] == 1 and len(p[1]) == 1 and p[1][0][1] == 1 and first_colon(p[1][0][0], text)):
        return False
    n = x[2][2] if len(x[2]) > 2 else NPOS
    return n == NPOS or n == ('ap', 'size', (text,)) or n == lin(('ap', 'size', (text,)), p)


def lin(a, b):
    """a - b"""
    terms = {a: 1}
    k = 0
    if b[0] == 'lin':
        for t, c in b[1]:
            terms[t] = terms.get(t, 0) - c
        k = -b[2]
    else:
        terms[b] = terms.get(b, 0) - 1
    ts = tuple(sorted(((t, c) for t, c in terms.items() if c), key=repr))
    return ('lin', ts, k)


def same_lin(x, a, b):
    """x is a - b"""
    y = lin(a, b)
    return x == y or x[0] == 'lin' and dict(x[1]) == dict(y[1]) and x[2] == y[2]


def unnarrow(v):
    while v[0] == 'narrow':
        v = v[2]
    return v


def netorder(pa, v, given):
    for e in pa.events:
        if e.kind == 'call' and short(e.name) in ('htons', '__bswap_16', '__builtin_bswap16', 'htobe16') and e.res == unnarrow(v):
            return unnarrow(vals(e)[0]) == given
    if v[0] == 'ap' and short(v[1]) in ('htons', '__bswap_16', '__builtin_bswap16', 'htobe16'):
        return unnarrow(v[2][0]) == given
    return False


def same(ctx):
    prog = ctx.prog
    A, B = NS + 'NetAddr::ip', NS + 'NetAddr::port'
    for op in ('operator==', 'operator!='):
        for f in prog.fns(NS + 'NetAddr::' + op):
            if f.body is None:
                continue
            it, ps = run(ctx, f)
            o = par(f, 0)
            d = [(('init', ('f', THIS, x)), ('init', ('f', o, x))) for x in (A, B)]
            decided(ctx, it, ps, f, [(eq(a, b), pred_not(eq(a, b))) for a, b in d], op == 'operator==', op)
    for f in prog.fns(NS + 'NetAddr::is_null'):
        if f.body is not None:
            it, ps = run(ctx, f)
            decided(ctx, it, ps, f, [(eq(('init', ('f', THIS, x)), C(0)), pred_not(eq(('init', ('f', THIS, x)), C(0)))) for x in (A, B)], True, 'is_null')
    for f in ctors(ctx, NS + 'NetAddr', 'sockaddr_in'):
        it, ps = run(ctx, f)
        for pa in ps:
            if pa.kind == 'ret':
                o = ('obj', ('init', par(f, 0)))
                ip, port = (pa.st.cells.get(('f', THIS, x)) for x in (A, B))
                ctx.ob('same', ip == ('init', ('f', ('f', o, 'sockaddr_in::sin_addr'), 'in_addr::s_addr')) and port == ('init', ('f', o, 'sockaddr_in::sin_port')), f.where,
                       'the address made of a socket address has other fields', path=pa, sig='sockaddr')
    for f in prog.functions.values():
        if f.body is not None and f.qn.startswith('std::hash') and short(f.qn) == 'operator()' and f.params and 'NetAddr' in f.params[0]['t']:
            it, ps = run(ctx, f)
            for pa in ps:
                if pa.kind == 'ret':
                    ok = leaves(pa.ret) <= {('f', par(f, 0), A), ('f', par(f, 0), B)} and not [e for e in pa.events if e.kind == 'call' and not pure(e)]
                    ctx.ob('same', ok, f.where, 'the hash value depends on something else than the fields of the address', path=pa, sig='hash')


def pure(e):
    return e.res and e.res[0] == 'ap' or short(e.name) in ('ntohl', 'ntohs', 'htonl', 'htons') or 'hash' in e.name


def leaves(v, res=None):
    res = set() if res is None else res
    if isinstance(v, tuple):
        if v and v[0] == 'init':
            res.add(v[1])
        elif v and v[0] == 'addr':
            res.add(v)
        elif v and v[0] == 's':
            if v[3:4] and 'bswap' not in str(v[3]) and 'hton' not in str(v[3]) and 'ntoh' not in str(v[3]):
                pass
        else:
            for x in v:
                leaves(x, res)
    return res


def decided(ctx, it, ps, f, conj, yes, name):
    """a predicate is the conjunction (yes) of facts, or its negation"""
    for pa in ps:
        if pa.kind != 'ret' or pa.ret is None or pa.ret[0] not in ('c', 'in', 'ne', 'not'):
            continue
        st = St()
        st.iv = dict(pa.st.iv)
        for b, x in it.split(pa.ret, st):
            t = all(it.holds(x.iv, p) for p, _ in conj)
            n = any(it.holds(x.iv, p) for _, p in conj)
            ctx.ob('same', t if b == yes else n, f.where, '%s answers %s for values for which it should not' % (name, 'yes' if b else 'no'), path=pa, sig=name)


# ---------------------------------------------------------------- hexadecimal
def stores(pa):
    """buffers written by formatting on this path"""
    return [e for e in pa.events if e.kind == 'call' and short(e.name) in ('sprintf', 'snprintf')]


def hexadecimal(ctx):
    prog = ctx.prog
    BUF, OFF = ('f', THIS, NS + 'DataStream::buffer'), ('f', THIS, NS + 'DataStream::offset')
    for f in prog.fns(NS + 'DataStream::get_hex'):
        if f.body is None:
            continue
        it, ps = run(ctx, f)
        for pa in ps:
            for e in stores(pa):
                a = vals(e)
                fm = [x for x in a if x[0] == 'str']
                if not fm:
                    continue
                src = unnarrow(a[-1])
                if src[0] == 'op' and src[1] == '&' and src[3] == C(255):
                    src = unnarrow(src[2])
                ctx.ob('hex-out', src[0] == 'init', e.where, 'something else than a byte of the stream is written', path=pa, sig='byte')
                ok = fm[0][1] in ('%02x', '%02hhx')
                ctx.ob('hex-out', ok, e.where, 'a byte is not written as two hexadecimal digits', path=pa, sig='digits')
                if src[0] == 'init' and src[1][0] == 'obj':
                    ctx.ob('hex-out', 'signed char' not in str(it.ty.get(src, '')).replace('unsigned char', ''), e.where, 'a byte is written with its sign', path=pa, sig='sign')
                if src[0] == 'init' and src[1][0] == 'obj' and src[1][1][0] == 'h':
                    h = src[1][1]
                    v = began(pa, h)
                    if v is not None:
                        want = {('ap', 'begin', (('init', BUF),)): 1, ('init', OFF): 1}
                        alt = {('ap', 'data', (('init', BUF),)): 1, ('init', OFF): 1}
                        ctx.ob('hex-out', v[0] == 'lin' and v[2] == 0 and dict(v[1]) in (want, alt), e.where, 'the first byte written is not the first one that is not consumed', path=pa, sig='first')
                    ends = [it.holds(x.st.iv, eq(h, ('ap', w, (('init', BUF),)))) for x in ps if x.kind == 'ret' for w in ('end', 'cend')]
                    if v is not None and 'begin' in repr(v):
                        ctx.ob('hex-out', any(ends), e.where, 'the last byte written is not the last one', path=pa, sig='last')
                    ctx.ob('hex-out', moved(it, pa, h) in (None, 1), e.where, 'a byte is left out', path=pa, sig='step')
                k = pa.events.index(e)
                after = [x for x in pa.events[k + 1:] if x.kind == 'call' and short(x.name) in ('memmove', 'memcpy') and vals(x)[1] == a[0]]
                for x in after:
                    ctx.ob('hex-out', vals(x)[2] == C(2), x.where, 'not exactly the two digits are taken', path=pa, sig='two')
    for f in prog.fns(NS + 'DataStream::load_hex'):
        if f.body is None:
            continue
        it, ps = run(ctx, f)
        t = ('init', par(f, 0))
        n = ('ap', 'size', (t,))
        odd = [('op', '&', n, C(1)), ('op', '%', n, C(2))]
        for pa in ps:
            iv = pa.st.iv
            if pa.kind in ('ret', 'backedge'):
                ctx.ob('hex-in', any(it.holds(iv, eq(x, C(0))) for x in odd), f.where, 'hexadecimal text of odd length is not refused', path=pa, sig='odd')
                rs = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('resize', 'assign') and e.obj == BUF]
                if rs:
                    ctx.ob('hex-in', vals(rs[-1])[0] in (('op', '>>', n, C(1)), ('op', '/', n, C(2))), rs[-1].where, 'the bytes are not half as many as the digits', path=pa, sig='size')
                ctx.ob('hex-in', pa.st.cells.get(OFF) == C(0), f.where, 'the stream does not start at the first byte of the text', path=pa, sig='offset')
            if pa.kind == 'backedge':
                ws = [e for e in pa.events if e.kind == 'write' and e.obj and e.obj[0] == 'obj' and e.obj[1][0] == 'h']
                sc = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'sscanf']
                for e in sc:
                    ctx.ob('hex-in', vals(e)[1] in (('str', '%02x'), ('str', '%2x')), e.where, 'a pair of digits is not read as one number', path=pa, sig='pair')
                    ctx.ob('hex-in', it.holds(iv, eq(e.res, C(1))), e.where, 'a pair that is not a number is accepted', path=pa, sig='scanned')
                    src = vals(e)[0]
                    for k in (0, 1):
                        ds = [x for x in pa.events if x.kind == 'call' and short(x.name) == 'isxdigit' and digit(vals(x)[0], src, k)]
                        ctx.ob('hex-in', any(it.holds(iv, pred_not(eq(x.res, C(0)))) for x in ds), e.where, 'character %d of a pair is accepted whatever it is' % k, path=pa, sig='digit%d' % k)
                    if src[0] == 'h' and ws:
                        v = began(pa, src)
                        ctx.ob('hex-in', v is None or text_of(v) == t, e.where, 'the first pair is not at the beginning of the text', path=pa, sig='first')
                        step = moved(it, pa, src)
                        ctx.ob('hex-in', step in (None, 2), e.where, 'the next pair is not two characters on', path=pa, sig='step')
                        step = moved(it, pa, ws[-1].obj[1])
                        ctx.ob('hex-in', step in (None, 1), e.where, 'the next byte is not one on', path=pa, sig='stepb')


def digit(v, src, k):
    v = unnarrow(v)
    if v[0] != 'init':
        return False
    c = v[1]
    if c == ('i', ('obj', src), C(k)):
        return True
    return k == 0 and c == ('obj', src) or c[0] == 'obj' and c[1][0] == 'lin' and c[1][1] == ((src, 1),) and c[1][2] == k


def began(pa, h):
    """what a variable of a loop is at its start"""
    for e in pa.events:
        if e.kind == 'loop' and h[2] in ((e.x or {}).get('entry') or {}):
            return e.x['entry'][h[2]]
    return None


def moved(it, pa, h):
    """by how much the variable of a loop moves on this round"""
    bs = [e for e in pa.events if e.kind == 'backedge']
    v = ((bs[-1].x or {}).get('next') or {}).get(h[2]) if bs else None
    if v is None:
        v = pa.st.cells.get(h[2])
    if v is None:
        return None
    if v == h:
        return 0
    if v[0] == 'lin' and dict(v[1]) == {h: 1}:
        return v[2]
    return None


# ---------------------------------------------------------------- strings
def strings(ctx):
    prog = ctx.prog
    for f in prog.fns(NS + 'trim'):
        if f.body is None or len(f.params) != 2:
            continue
        it, ps = run(ctx, f)
        s, sp = ('init', par(f, 0)), ('init', par(f, 1))
        first = [('ap', 'find_first_not_of', (s, sp, C(0))), ('ap', 'find_first_not_of', (s, sp))]
        last = [('ap', 'find_last_not_of', (s, sp, NPOS)), ('ap', 'find_last_not_of', (s, sp))]
        for pa in ps:
            if pa.kind != 'ret' or pa.ret is None:
                continue
            none = any(it.holds(pa.st.iv, eq(a, NPOS)) for a in first + last)
            some = any(it.holds(pa.st.iv, pred_not(eq(a, NPOS))) for a in first + last)
            v = pa.ret
            if v[0] == 'ap' and short(v[1]) == 'substr':
                ok = some and v[2][0] == s and v[2][1] in first and any(span(v[2][2], v[2][1], b) for b in last)
                ctx.ob('trim', ok, f.where, 'trimming does not give the text from its first to its last character that is no white space', path=pa, sig='span')
            elif v == ('str', '') or v[0] == 'ap' and short(v[1]) == '(ctor)' and v[2][:1] in ((), (('str', ''),)):
                ctx.ob('trim', none or it.holds(pa.st.iv, eq(('ap', 'size', (s,)), C(0))), f.where, 'a text is trimmed to nothing although it is not all white space', path=pa, sig='nothing')
            elif v == s:
                ctx.ob('trim', False, f.where, 'a text is returned untrimmed', path=pa, sig='untrimmed')
    for f in prog.fns(NS + 'split'):
        if f.body is None or len(f.params) != 2:
            continue
        it, ps = run(ctx, f)
        s, d = ('init', par(f, 0)), ('init', par(f, 1))
        for pa in ps:
            ins = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('push_back', 'emplace_back')]
            fs = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'find' and e.obj == par(f, 0)]
            for e in fs:
                ctx.ob('split', vals(e)[0] == d, e.where, 'something else than the delimiter is looked for', path=pa, sig='delim')
                lp = vals(e)[1]
                if lp[0] != 'h':
                    continue
                if pa.kind == 'backedge':
                    ctx.ob('split', len(ins) == 1 and piece(vals(ins[0])[0], s, lp, e.res), e.where, 'the text before a delimiter is not one of the results', path=pa, sig='piece')
                    v = pa.st.cells.get(lp[2])
                    want = {e.res: 1, ('ap', 'size', (d,)): 1}
                    ctx.ob('split', v is not None and v[0] == 'lin' and dict(v[1]) == want and v[2] == 0, e.where, 'the search does not go on behind the delimiter', path=pa, sig='next')
                elif pa.kind == 'ret':
                    ok = len(ins) >= 1 and rest(vals(ins[-1])[0], s, lp)
                    ctx.ob('split', ok, e.where, 'the text behind the last delimiter is not one of the results', path=pa, sig='last')


def span(v, a, b):
    return v[0] == 'lin' and dict(v[1]) == {a: -1, b: 1} and v[2] == 1


def piece(v, s, lp, pos):
    return v[0] == 'ap' and short(v[1]) == 'substr' and v[2][0] == s and v[2][1] == lp and same_lin(v[2][2], pos, lp)


def rest(v, s, lp):
    if not (v[0] == 'ap' and short(v[1]) == 'substr' and v[2][0] == s and v[2][1] == lp):
        return False
    n = v[2][2] if len(v[2]) > 2 else NPOS
    return n == NPOS or n == ('ap', 'size', (s,)) or same_lin(n, ('ap', 'size', (s,)), lp)


# ---------------------------------------------------------------- formatting
def formatting(ctx):
    for f in ctx.prog.fns(NS + 'vstringprintf'):
        if f.body is None:
            continue
        it, ps = run(ctx, f)
        for pa in ps:
            if pa.kind != 'ret' or pa.ret is None:
                continue
            fs = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'vsnprintf']
            if not fs:
                continue
            used = [vals(e)[3] for e in fs]
            ctx.ob('format', len(set(map(repr, used))) == len(used), f.where, 'an argument list is formatted a second time', path=pa, sig='twice')
            cp = [i for i, e in enumerate(pa.events) if e.kind == 'call' and 'va_copy' in e.name]
            for e in fs[1:]:
                if vals(e)[3][0] == 'addr':
                    i = pa.events.index(fs[0])
                    ctx.ob('format', any(j < i for j in cp), e.where, 'the copy of the argument list is taken after it was formatted', path=pa, sig='copied')
            n0, sz = fs[0].res, vals(fs[0])[1]
            iv = pa.st.iv
            if pa.ret[0] == 'ap' and short(pa.ret[1]) == 'resize':
                v = pa.ret[2][1]
                lst = fs[-1]
                if v == C(0):
                    continue
                good = any(it.holds(iv, eq(v, e.res)) or v == e.res for e in fs)
                ctx.ob('format', good, f.where, 'the string is not as long as the formatted text', path=pa, sig='length')
                # the last call had room for the text and its end
                m = vals(lst)[1]
                room = it.holds(iv, lt(v, m)) or m[0] == 'lin' and any(it.holds(iv, eq(lst.res, e.res)) and dict(m[1]) == {e.res: 1} and m[2] >= 1 for e in fs)
                ctx.ob('format', bool(room), lst.where, 'the formatted text is cut off', path=pa, sig='room')


# ---------------------------------------------------------------- options
def key_of(e):
    v = vals(e)[0]
    if v[0] == 'st':
        d = {k[2]: x for k, x in v[2] if k[0] == 'f'}
        return d.get('std::pair::first'), d.get('std::pair::second')
    if len(vals(e)) > 1:
        return vals(e)[0], vals(e)[1]
    return None, None


def field(cls, name):
    return cls + '::' + name


def register(ctx):
    dup = code(ctx, 'SALTI_ERROR_OPTNAME_ALREADY_EXISTS')
    O = CFG + 'Opt::'
    for f in ctx.prog.fns(CFG + 'add_opt'):
        if f.body is None or len(f.params) < 4:
            continue
        it, ps = run(ctx, f)
        conf, opts = ('f', THIS, CFG + 'conf'), ('f', THIS, CFG + 'opts')
        name, val, act, sh = (('init', par(f, i)) for i in range(4))
        cnt = ('ap', 'count', (('init', conf), name))
        for pa in ps:
            muts = [e for e in pa.events if e.kind == 'call' and e.obj in (conf, opts) and short(e.name) in ('insert', 'emplace', 'push_back', 'emplace_back', 'erase', 'operator[]', 'insert_or_assign')]
            if pa.kind == 'throw':
                ctx.ob('register', raises(pa) == C(dup) and not muts, f.where, 'an option is refused for another reason than its name, or after it was registered', path=pa, sig='refused')
                ctx.ob('register', not it.holds(pa.st.iv, eq(cnt, C(0))), f.where, 'an option with a new name is refused', path=pa, sig='new')
                continue
            if pa.kind != 'ret':
                continue
            look = [e for e in pa.events if e.kind == 'call' and e.obj == conf and short(e.name) in ('count', 'find')]
            free = it.holds(pa.st.iv, eq(cnt, C(0))) or any(short(e.name) == 'find' and vals(e)[0] == name for e in look)
            ctx.ob('register', free, f.where, 'an option is registered although its name is taken', path=pa, sig='taken')
            new = [e for e in pa.events if e.kind == 'new' and e.name == CFG + 'Opt']
            if len(new) != 1:
                continue
            o = ('obj', new[0].res)
            c = pa.st.cells
            ctx.ob('register', c.get(('f', o, O + 'action')) == act and given_to(c.get(('f', o, O + 'optval')), val) and c.get(('f', o, O + 'short_opt')) == sh, f.where,
                   'the option does not have the value, action and letter given', path=pa, sig='fields')
            q = ('f', o, O + 'opt')
            nm = c.get(('f', q, 'option::name'))
            ctx.ob('register', nm is not None and text_of(nm) == name, f.where, 'the option does not have its name on the command line', path=pa, sig='name')
            sw = [e['v'] for en in enums(ctx) for e in en['e'] if e['n'] == 'SWITCH_ON']
            has = c.get(('f', q, 'option::has_arg'))
            if sw and has in (C(0), C(1)):
                is_sw = it.holds(pa.st.iv, eq(act, C(int(sw[0]))))
                not_sw = it.holds(pa.st.iv, pred_not(eq(act, C(int(sw[0])))))
                ctx.ob('register', is_sw if has == C(0) else not_sw, f.where, 'an option that needs an argument is registered without one, or a switch with one', path=pa, sig='arg')
            v = c.get(('f', q, 'option::val'))
            idx = ('ap', 'size', (('init', opts),))
            ok = v is not None and v[0] == 'lin' and len(v[1]) == 1 and v[1][0][1] == 1 and unnarrow(v[1][0][0]) == idx
            ctx.ob('register', ok and v[2] == 256, f.where, 'the number of the option is not its place behind the letters', path=pa, sig='number')
            ins = [e for e in muts if e.obj == opts]
            ctx.ob('register', len(ins) == 1 and new[0].res in flat(vals(ins[0])), f.where, 'the option is not added to the options', path=pa, sig='added')
            ks = [key_of(e) for e in muts if e.obj == conf and short(e.name) in ('insert', 'emplace', 'insert_or_assign')]
            ks += [(e.obj[2], vals(e)[0]) for e in pa.events if e.kind == 'write' and e.obj and e.obj[0] == 'i' and e.obj[1] == conf]
            ctx.ob('register', any(k == name and v is not None and new[0].res in flat(v) for k, v in ks), f.where, 'the option is not found under its name', path=pa, sig='byname')
            if not it.holds(pa.st.iv, eq(sh, C(-1))):
                ctx.ob('register', any(k and letter(k, sh) and v is not None and new[0].res in flat(v) for k, v in ks), f.where, 'the option is not found under its letter', path=pa, sig='byletter')


def enums(ctx):
    return ctx.prog.enums.values() if isinstance(ctx.prog.enums, dict) else ctx.prog.enums


def given_to(v, x):
    return v == x or v is not None and v[0] == 'ap' and x in v[2]


def letter(k, sh):
    return k[0] == 'ap' and short(k[1]) == '(ctor)' and k[2][:1] == (C(1),) and unnarrow(k[2][1]) == sh


def flat(v, res=None):
    res = set() if res is None else res
    if isinstance(v, tuple):
        res.add(v)
        for x in v:
            flat(x, res)
    return res


def apply(ctx):
    un = code(ctx, 'SALTI_ERROR_OPT_UNKNOWN_ACTION')
    want = {'SWITCH_ON': 'switch_on', 'SET_VAL': 'set_val', 'APPEND': 'append'}
    num = {}
    for en in enums(ctx):
        names = {e['n']: int(e['v']) for e in en['e']}
        if set(want) <= set(names):
            num = {names[k]: want[k] for k in want}
    for f in ctx.prog.fns(CFG + 'update'):
        if f.body is None or len(f.params) != 2:
            continue
        if 'Opt' in f.params[0]['t']:
            it, ps = run(ctx, f)
            act = ('init', ('f', par(f, 0), CFG + 'Opt::action'))
            txt = ('init', par(f, 1))
            for pa in ps:
                cs = [e for e in pa.events if e.kind in ('vcall', 'call') and short(e.name) in want.values()]
                if pa.kind == 'throw':
                    ctx.ob('apply', raises(pa) == C(un) and not cs, f.where, 'an option is not refused as one of an unknown action', path=pa, sig='unknown')
                    ctx.ob('apply', not any(it.holds(pa.st.iv, eq(act, C(k))) for k in num), f.where, 'an option with a known action is refused', path=pa, sig='known')
                elif pa.kind == 'ret':
                    ok = len(cs) == 1 and any(it.holds(pa.st.iv, eq(act, C(k))) and short(cs[0].name) == m for k, m in num.items())
                    ctx.ob('apply', ok, f.where, 'an option is not given to its value by its own action', path=pa, sig='action')
                    if cs and short(cs[0].name) != 'switch_on':
                        ctx.ob('apply', txt in flat(vals(cs[0])), f.where, 'the value is not given the text of the option', path=pa, sig='text')
        else:
            it, ps = run(ctx, f, opaque={CFG + 'update'})
            for pa in ps:
                cs = [e for e in pa.events if e.kind == 'call' and e.name == CFG + 'update']
                if pa.kind == 'ret' and cs:
                    ctx.ob('apply', len(cs) == 1 and vals(cs[0])[1] == ('init', par(f, 1)) and ('init', par(f, 0)) in flat((vals(cs[0]), cs[0].args)), f.where, 'another option, or another text, than those given', path=pa, sig='byname')
                elif pa.kind == 'ret' and not [e for e in pa.events if e.kind == 'vcall']:
                    ctx.ob('apply', False, f.where, 'an option is not applied', path=pa, sig='none')


def line(ctx):
    long_ = code(ctx, 'SALTI_ERROR_CONFIG_LINE_TOO_LONG')
    for f in ctx.prog.fns(CFG + 'load'):
        if f.body is None:
            continue
        it, ps = run(ctx, f, opaque={CFG + 'update', NS + 'trim', NS + 'Logger::info', NS + 'Logger::warning'})
        conf = ('f', THIS, CFG + 'conf')
        for pa in ps:
            fo = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'fopen']
            fg = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'fgets']
            up = [e for e in pa.events if e.kind == 'call' and e.name == CFG + 'update']
            iv = pa.st.iv
            if not fo:
                continue
            if pa.kind == 'ret' and pa.ret in (C(0), C(1)):
                opened, not_ = it.holds(iv, pred_not(eq(fo[0].res, C(0)))), it.holds(iv, eq(fo[0].res, C(0)))
                ctx.ob('line', opened if pa.ret == C(1) else not_, f.where, 'a file that was not read is reported as loaded, or one that was as missing', path=pa, sig='loaded')
                if pa.ret == C(1) and fg:
                    ctx.ob('line', it.holds(iv, eq(fg[-1].res, C(0))), f.where, 'the file is not read to its end', path=pa, sig='end')
            if pa.kind == 'throw' and not up:
                ctx.ob('line', raises(pa) == C(long_), f.where, 'a line is refused for another reason than its length', path=pa, sig='refused')
            if not fg or pa.kind != 'backedge':
                continue
            g = fg[-1]
            size = vals(g)[1]
            sl = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'strlen']
            nl = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('strchr', 'memchr', 'strrchr')]
            if size[0] == 'c' and not nl:
                ok = any(it.holds(iv, pred_not(eq(e.res, C(size[1] - 1)))) for e in sl)
                ctx.ob('line', ok, g.where, 'a line that does not fit is taken for two', path=pa, sig='long')
            tr = [e for e in pa.events if e.kind == 'call' and e.name == NS + 'trim']
            cn = [e for e in pa.events if e.kind == 'call' and e.obj == conf and short(e.name) in ('count', 'find')]
            fd = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('find', 'find_first_of') and e.obj != conf and vals(e) and vals(e)[0] in (('str', '='), C(61))]
            bk = [x for e in tr for x in flat(vals(e)) if len(x) == 3 and x[0] == 'ap' and isinstance(x[1], str) and short(x[1]) in ('rfind', 'find_last_of') and x[2][1:2] in ((('str', '='),), (C(61),))]
            if bk:
                ctx.ob('line', False, tr[0].where, 'the line is divided at its last "="', path=pa, sig='last')
            ctx.ob('line', len(up) <= 1, f.where, 'a line is applied more than once', path=pa, sig='once')
            known = any(short(e.name) == 'count' and it.holds(iv, lt(C(0), e.res)) for e in cn)
            unknown = any(short(e.name) == 'count' and it.holds(iv, eq(e.res, C(0))) for e in cn)
            split = any(it.holds(iv, pred_not(eq(e.res, NPOS))) for e in fd)
            nosplit = any(it.holds(iv, eq(e.res, NPOS)) for e in fd)
            if not up and fd and not nosplit and (cn and not unknown and all(short(e.name) == 'count' for e in cn) or not cn):
                ctx.ob('line', False, f.where, 'a line that sets a known option is not applied', path=pa, sig='skipped')
            for e in up:
                ctx.ob('line', not unknown and not nosplit, e.where, 'an unknown name, or a line without "=", is applied', path=pa, sig='unknown')
                if len(tr) == 2 and fd:
                    a, b = vals(e)[0], text_of(vals(e)[1])
                    t = {x.res: vals(x)[0] for x in tr}
                    pos = fd[0].res
                    keys = [a] + [vals(x)[0] for x in cn if x.res in flat((a, e.args)) or short(x.name) == 'find']
                    ok = b in t and tail(t[b], pos) and any(k in t and lead(t[k], pos) for k in keys)
                    ctx.ob('line', ok, e.where, 'name and value are not the trimmed texts before and behind the first "="', path=pa, sig='parts')
                elif len(tr) < 2 and not [x for x in pa.events if x.kind == 'call' and 'find_' in x.name]:
                    ctx.ob('line', False, e.where, 'name or value are not trimmed', path=pa, sig='untrimmed')


def lead(v, pos):
    return v[0] == 'ap' and short(v[1]) == 'substr' and v[2][1] == C(0) and v[2][2] == pos


def tail(v, pos):
    if not (v[0] == 'ap' and short(v[1]) == 'substr'):
        return False
    p = v[2][1]
    return p[0] == 'lin' and dict(p[1]) == {pos: 1} and p[2] == 1 and (len(v[2]) < 3 or v[2][2] == NPOS or 'size' in repr(v[2][2])[:40])


def choose(ctx):
    inv = code(ctx, 'SALTI_ERROR_OPT_INVALID')
    for f in ctx.prog.fns(CFG + 'parse'):
        if f.body is None:
            continue
        it, ps = run(ctx, f, opaque={CFG + 'update', CFG + 'load', NS + 'Logger::info', NS + 'Logger::warning'})
        opts = ('f', THIS, CFG + 'opts')
        sw = [int(e['v']) for en in enums(ctx) for e in en['e'] if e['n'] == 'SWITCH_ON']
        for pa in ps:
            iv = pa.st.iv
            go = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'getopt_long']
            up = [e for e in pa.events if e.kind == 'call' and e.name == CFG + 'update']
            ld = [e for e in pa.events if e.kind == 'call' and e.name == CFG + 'load']
            for e in go[:1]:
                ctx.ob('choose', any(pa.events.index(x) < pa.events.index(e) and vals(x)[0] == ('init', ('f', THIS, CFG + 'conf_fname')) for x in ld), e.where,
                       'the configuration file is not loaded before the command line', path=pa, sig='order')
                ctx.ob('choose', [vals(e)[0], vals(e)[1]] == [('init', par(f, 0)), ('init', par(f, 1))], e.where, 'another command line than the one given', path=pa, sig='argv')
            if pa.kind == 'throw' and go:
                ctx.ob('choose', raises(pa) == C(inv) and it.holds(iv, eq(go[-1].res, C(63))), f.where, 'a command line is refused without an invalid option', path=pa, sig='refused')
            if pa.kind == 'ret' and go:
                ctx.ob('choose', it.holds(iv, eq(go[-1].res, C(-1))), f.where, 'the command line is not read to its end', path=pa, sig='end')
                ctx.ob('choose', pa.ret is not None and 'optind' in repr(pa.ret), f.where, 'the position of the first argument that is no option is not returned', path=pa, sig='optind')
            if pa.kind == 'backedge' and go:
                id_ = go[-1].res
                ctx.ob('choose', it.holds(iv, pred_not(eq(id_, C(63)))), f.where, 'an option that is not recognised is accepted', path=pa, sig='unknown')
                ctx.ob('choose', len(up) == 1, f.where, 'an option is not applied exactly once', path=pa, sig='once')
                for e in up:
                    a, t = vals(e)[0], vals(e)[1]
                    ctx.ob('choose', 'optarg' in repr(t), e.where, 'an option is not given its argument', path=pa, sig='arg')
                    idx = [x for x in flat((a, e.args)) if len(x) == 3 and x[0] == 'i' and x[1] == opts]
                    if idx:
                        ok = all(x[2][0] == 'lin' and dict(x[2][1]) == {id_: 1} and x[2][2] == -256 for x in idx) and it.holds(iv, le(C(256), id_))
                        ctx.ob('choose', ok, e.where, 'the option applied is not the one with the number recognised', path=pa, sig='number')
                    elif a[0] == 'ap' and short(a[1]) == '(ctor)':
                        ok = letter(a, id_) and it.holds(iv, lt(id_, C(256)))
                        ctx.ob('choose', ok, e.where, 'the option applied is not the one with the letter recognised', path=pa, sig='letter')
            if pa.kind == 'backedge' and not go:
                # the tables of options
                ws = [e for e in pa.events if e.kind == 'write' and e.obj and e.obj[0] == 'i' and 'new option' in repr(e.obj[1])]
                for e in ws:
                    v = vals(e)[0]
                    src = [x for x in flat(v) if len(x) == 3 and x[0] == 'i' and x[1] == opts]
                    if src and not any('elem' in repr(x[2]) for x in src):
                        ctx.ob('choose', all(x[2] == e.obj[2] for x in src), e.where, 'an option is not at its own place in the table', path=pa, sig='table')
                ap_ = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('operator+=', 'push_back', 'append') and e.obj and e.obj[0] == 'v']
                if not ap_ and not ws:
                    continue
                so = [k for k in iv if 'Opt::short_opt' in repr(k)]
                ha = [k for k in iv if 'option::has_arg' in repr(k)]
                let = [e for e in ap_ if 'short_opt' in repr(vals(e))]
                col = [e for e in ap_ if vals(e) and vals(e)[0] in (('str', ':'), C(58))]
                if so:
                    lo, hi, ne = iv[so[0]]
                    if lo == hi == -1:
                        ctx.ob('choose', not ap_, f.where, 'an option without a letter is given one', path=pa, sig='noletter')
                    else:
                        ctx.ob('choose', len(let) == 1, f.where, 'the letter of an option is not recognised', path=pa, sig='letters')
                        ac = [k for k in iv if 'Opt::action' in repr(k)]
                        if not sw or any(len(k) != 1 for k in ha + ac):
                            continue
                        takes = any(iv[k][:2] == (1, 1) for k in ha) or any(out(iv[k], sw[0]) for k in ac)
                        none = any(out(iv[k], 1) for k in ha) or any(iv[k][:2] == (sw[0], sw[0]) for k in ac)
                        ctx.ob('choose', len(col) == 1 and takes or not col and none, f.where, 'a letter takes an argument although its option does not, or takes none although it does', path=pa, sig='colon')


def out(i, n):
    """the value is known not to be n"""
    return n in i[2] or i[0] is not None and i[0] > n or i[1] is not None and i[1] < n
