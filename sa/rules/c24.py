"""No hidden shared state: objects that are not shared do not meet in the library's globals."""
from .peers import *
from ..program import walk
from ..interp import LOCKS
TITLE = 'Threads using different objects share no hidden state'
RULES = {
    'global': 'a variable of the whole process is constant, atomic, private to a thread, changed under a lock, or changed by nothing but its own initialisation',
    'reentrant': 'no C library function is called that keeps its result or position in memory shared by all threads',
    'scratch': 'an object kept for a thread between operations is reset by each operation before it is used',
    'line': 'a log message is written by a single write of one local string',
    'lazy': 'a local variable kept between calls is initialised by its declaration alone',
}
EXPLAIN = ('Every use of every variable with static storage in the library (followed through members, elements, references and the methods called on it) is classified as a read or a change; '
           'every call to the C library is compared with the functions that keep shared results.')
ASSUME = ['the C library is glibc: inet_ntoa, strerror and rand are safe in it', 'options are parsed (getopt) by one thread at a time', 'OpenSSL and libuv are safe for use by several threads on different objects']
# (functions that return, or keep their position in, memory of the process)
SHARED = set('''localtime gmtime ctime asctime strtok gethostbyname gethostbyname2 gethostbyaddr gethostent getnetbyname getprotobyname getprotobynumber getservbyname
getservbyport getpwnam getpwuid getgrnam getgrgid getpwent getgrent tmpnam ttyname setlocale setenv putenv unsetenv readdir srand srandom drand48 erand48 lrand48 mrand48 srand48
mblen mbtowc wctomb mbrlen mbrtowc wcrtomb getlogin ptsname crypt encrypt ecvt fcvt l64a strsignal basename dirname umask chdir fchdir ether_ntoa ether_aton hsearch hcreate
uv_default_loop uv_setup_args uv_set_process_title'''.split())
ATOMIC = ('std::atomic', 'std::once_flag', 'std::mutex', 'std::recursive_mutex', 'std::shared_timed_mutex', 'std::shared_mutex', 'std::condition_variable', 'std::timed_mutex')


def constant(t):
    """whether an object of the type cannot be changed"""
    t = t.strip()
    while t.endswith(']'):
        t = t[:t.rindex('[')].strip()
    if t.endswith('&'):
        return None
    if t.endswith('*const') or t.endswith('* const'):
        return True
    return t.startswith('const ') and '*' not in outer(t)


def outer(t):
    """the type without template arguments"""
    out, d = '', 0
    for c in t:
        d += (c == '<') - (c == '>')
        if d == 0 and c != '>':
            out += c
    return out


class Uses:
    """classifies the uses of an object in function bodies"""

    def __init__(self, prog):
        self.prog, self.cache = prog, {}

    def visit(self, body, isroot):
        """(kind, node) for each use of a root: 'read', 'change', or ('call', method)"""
        out = []
        alias = set()

        def go(n, anc):
            if isinstance(n, dict):
                if n.get('k') == 'decl':
                    for v in n.get('v', ()):
                        if v.get('ref') and not v.get('t', '').startswith('const ') and v.get('init') is not None and self.rooted(v['init'], root):
                            alias.add(v['d'])
                if 'k' in n and root(n):
                    r = self.climb(n, anc)
                    if r is not None:
                        out.append((r, n))
                for k, v in n.items():
                    if isinstance(v, (dict, list)):
                        go(v, anc + [(n, k)])
            elif isinstance(n, list):
                for i, v in enumerate(n):
                    if isinstance(v, (dict, list)):
                        go(v, anc + [(n, i)])

        def root(n):
            return isroot(n) or n['k'] == 'ref' and n.get('d') in alias
        go(body, [])
        return out

    def rooted(self, n, root):
        while isinstance(n, dict):
            if 'k' in n and root(n):
                return True
            n = n.get('b') if n.get('k') == 'mem' else n.get('a')
        return False

    def climb(self, n, anc):
        path = [a for a in anc]
        i = len(path) - 1
        child = n
        pointer = n['k'] == 'this'
        while i >= 0:
            p, key = path[i]
            if isinstance(p, list):
                # an element of an argument list
                lst, at = p, key
                i -= 1
                if i < 0:
                    return 'read'
                p, key = path[i]
                if p.get('k') in ('call', 'mcall', 'ctor', 'opcall') and key == 'args':
                    m = (p.get('pf') or '')[at:at + 1]
                    if m in ('r', 'x') or m == 'p' and pointer:
                        if p.get('qn') in ('std::forward', 'std::move', 'std::addressof'):
                            return 'change'
                        return 'change'
                    return 'read'
                return 'read'
            k = p.get('k')
            if k == 'load' or k in ('sizeof', 'cond') and key == 'q':
                return 'read' if not pointer else None if n['k'] == 'this' else 'read'
            if k == 'mem':
                child, pointer = p, False
                i -= 1
                continue
            if k == 'idx' and key == 'a':
                child, pointer = p, False
                i -= 1
                continue
            if k in ('cast', 'mat', 'cleanup', 'paren'):
                if p.get('ck') == 'LValueToRValue':
                    return 'read'
                if p.get('t', '').startswith('const ') and p.get('ck') in ('NoOp', None):
                    return 'read'
                pointer = pointer or p.get('ck') == 'ArrayToPointerDecay'
                i -= 1
                continue
            if k == 'un':
                op = p.get('op')
                if op == '&':
                    pointer = True
                    i -= 1
                    continue
                if op == '*':
                    pointer = False
                    i -= 1
                    continue
                if op in ('++', '--', 'post++', 'post--', 'pre++', 'pre--') or '++' in str(op) or '--' in str(op):
                    return 'change'
                return 'read'
            if k == 'mcall' and key == 'obj':
                return ('call', p)
            if k in ('asg', 'bin', 'casg') and (p.get('asg') or k in ('asg', 'casg') or str(p.get('op')) in ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '<<=', '>>=', '%=')):
                return 'change' if key == 'a' else 'read' if not pointer else 'change'
            if k == 'decl' or k is None:
                if pointer and p.get('n') and not str(p.get('t', '')).startswith('const '):
                    return 'change'
                return 'read'
            if k == 'ret':
                return 'change' if pointer and n['k'] != 'this' else 'read'
            return 'read' if not pointer else None if n['k'] == 'this' else 'read'
        return 'read'

    def changes(self, fid, seen=()):
        """whether a method changes its object"""
        f = self.prog.functions.get(fid)
        if f is None or f.const or f.static:
            return False if f is not None else None
        if fid in self.cache:
            return self.cache[fid]
        if f.body is None:
            return True
        self.cache[fid] = False
        r = False
        for u, n in self.visit(f.body, lambda m: m['k'] == 'this'):
            if u == 'change':
                r = True
            elif isinstance(u, tuple):
                r = r or self.called(u[1])
        self.cache[fid] = r
        return r

    def called(self, p):
        """whether the object of a method call is changed by it"""
        if p.get('const'):
            return False
        f = self.prog.functions.get(p.get('fn'))
        if f is None:
            return True
        if f.const:
            return False
        return bool(self.changes(f.fn))


def atomic(t):
    return any(t.replace('const ', '').startswith(a) for a in ATOMIC)


def locked(f, node, globs):
    """whether the function holds a lock on a mutex of the process at the node"""
    for n in walk(f.body):
        if n['k'] == 'blk':
            held = False
            for s in n.get('s', ()):
                if s.get('k') == 'decl':
                    for v in s.get('v', ()):
                        if v.get('tr') in LOCKS and v.get('init') and any(m.get('dq') in globs or m.get('glob') for m in walk(v['init']) if m['k'] == 'ref'):
                            held = True
                if held and any(m is node for m in walk(s)):
                    return True
    return False


def check(ctx):
    prog = ctx.prog
    mine = [f for f in prog.functions.values() if f.body is not None and (rel(f.file).startswith('include/') or rel(f.file).startswith('src/'))]
    ctx.require(len(mine) > 400, 'functions of the library not found')
    U = Uses(prog)
    globs = {k: v for k, v in prog.gvars.items() if rel(v['file']).startswith('include/') or rel(v['file']).startswith('src/')}
    ctx.require(len(globs) >= 10, 'variables of the library not found')
    # ---------------------------------------------------------- variables of the process
    mutable = {}
    for q, v in sorted(globs.items()):
        t = v.get('t', '')
        where = '%s:%s' % (rel(v['file']), v.get('l', 0))
        if v.get('tls') or atomic(t) or constant(t):
            ctx.ob('global', True, where, '', sig=q)
            continue
        mutable[q] = where
    bad = {q: [] for q in mutable}
    for f in mine:
        bodies = [f.body] + [i for i in f.inits or ()]
        for b in bodies:
            for u, n in U.visit(b, lambda m: m['k'] in ('ref', 'mem') and m.get('dq') in mutable and not (m['k'] == 'mem' and False)):
                if u == 'read' or isinstance(u, tuple) and not U.called(u[1]):
                    continue
                if locked(f, n, globs):
                    continue
                g = n.get('dq')
                if g in bad:
                    bad[g].append((f, n))
    for q, where in mutable.items():
        ctx.ob('global', not bad[q], '%s:%s' % (rel(bad[q][0][0].file), bad[q][0][1].get('l', 0)) if bad[q] else where,
               '%s, shared by all threads, is changed by %s' % (q, bad[q][0][0].qn if bad[q] else ''), sig=q)
    # ---------------------------------------------------------- variables kept by a function
    for f in mine:
        for n in walk(f.body):
            if n['k'] != 'decl':
                continue
            for v in n.get('v', ()):
                if not v.get('static'):
                    continue
                t = v.get('t', '')
                where = '%s:%s' % (rel(f.file), v.get('l', 0))
                name = '%s::%s' % (f.qn, v['n'])
                if v.get('tls'):
                    scratch(ctx, prog, f, v, where)
                    continue
                if constant(t) or atomic(t):
                    ctx.ob('lazy', True, where, '', sig=name)
                    continue
                us = U.visit(f.body, lambda m: m['k'] == 'ref' and m.get('d') == v['d'])
                ch = [m for u, m in us if (u == 'change' or isinstance(u, tuple) and U.called(u[1])) and not locked(f, m, globs)]
                ch += [m for m in walk(f.body) if m['k'] == 'ret' and '&' in f.ret + '*' and any(x['k'] == 'ref' and x.get('d') == v['d'] for x in walk(m)) and
                       (f.ret.endswith('&') or f.ret.endswith('*')) and not f.ret.startswith('const ')]
                ctx.ob('lazy', not ch, '%s:%s' % (rel(f.file), ch[0].get('l', 0)) if ch else where, '%s, kept between calls and shared by all threads, is changed' % name, sig=name)
    # ---------------------------------------------------------- the C library
    for f in mine:
        for n in walk(f.body):
            if n['k'] in ('call',) and n.get('qn'):
                q = n['qn'].split('::')[-1] if n['qn'].startswith('std::') or n['qn'].startswith('::') else n['qn']
                if '::' in q:
                    continue
                ctx.ob('reentrant', q not in SHARED, '%s:%s' % (rel(f.file), n.get('l', 0)), '%s calls %s, whose result other threads overwrite' % (f.qn, q), sig='%s:%s' % (f.qn, q))
    logline(ctx, prog)
    for r in ('global', 'reentrant', 'line'):
        ctx.need(r)


def scratch(ctx, prog, f, v, where):
    """an object kept for the thread"""
    cls = v.get('tr')
    name = '%s::%s' % (f.qn, v['n'])
    it = Interp(prog, Config(opaque_classes={cls} if cls else ()))
    ms = {short(m.qn) for m in prog.methods_of(cls)} if cls else set()
    ps = it.run(f)
    ctx.note(f.qn, ps, it)
    for pa in ps:
        first = next((e for e in pa.events if e.obj and any(x == ('g', name) for x in subterms(e.obj))), None)
        if first is None:
            continue
        ok = first.kind == 'write' or first.kind == 'call' and short(first.name) in ('reset', 'clear', 'operator=', 'init', 'assign') or first.kind == 'call' and short(first.name) == '(ctor)'
        ctx.ob('scratch', ok, first.where, '%s of the previous operation is used' % name, path=pa, sig=name)


def logline(ctx, prog):
    """a message is one write of one local string"""
    fs = [f for f in prog.methods_of(NS + 'Logger') if f.body is not None]
    it = Interp(prog, Config(extra_opaque=(NS + 'stringprintf', NS + 'vstringprintf', NS + 'get_current_datetime'), logs=True))
    n = 0
    for f in fs:
        if short(f.qn) not in ('info', 'debug', 'warning', 'error'):
            continue
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        for pa in ps:
            if pa.kind != 'ret':
                continue
            w = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('write', 'writev', 'dprintf', 'vdprintf', 'fprintf', 'vfprintf', 'fputs', 'fwrite', 'puts', 'printf') and not e.name.startswith(NS)]
            n += 1
            ctx.ob('line', len(w) == 1, f.where, 'a message is written in %d pieces' % len(w), path=pa, sig=f.qn)
    ctx.require(n >= 3, 'log functions not found')
