"""Loads the type-resolved program of /repo through the clang extractor."""
import json, os, re, subprocess, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo').rstrip('/')


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (exit code 2)."""


def ensure_tool():
    exe = os.path.join(VERIF, 'build', 'salt-extract')
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(exe):
            raise AnalysisBroken('extractor does not build: ' + r.stdout.decode(errors='replace')[-500:])
    return exe


def config_defaults():
    """option(SALTICIDAE_X .. ON|OFF) defaults of the real build."""
    d = {}
    txt = open(REPO + '/CMakeLists.txt').read()
    for m in re.finditer(r'option\(\s*(SALTICIDAE_\w+)\s+"[^"]*"\s+(ON|OFF)\s*\)', txt):
        d[m.group(1)] = m.group(2) == 'ON'
    return d


def gen_config(dst, overrides=None):
    d = config_defaults()
    d.update(overrides or {})
    src = open(REPO + '/src/config.h.in').read()

    def sub(m):
        n = m.group(1)
        return '#define %s' % n if d.get(n) else '/* #undef %s */' % n
    out = re.sub(r'#cmakedefine\s+(\w+)', sub, src)
    os.makedirs(dst + '/salticidae', exist_ok=True)
    with open(dst + '/salticidae/config.h', 'w') as f:
        f.write(out)
    return d


class Fn:
    __slots__ = ('fn', 'qn', 'file', 'line', 'eline', 'ret', 'params', 'cls', 'clsfull', 'virtual', 'static',
                 'const', 'overrides', 'kind', 'inits', 'body', 'externc', 'defaulted', 'targs', 'copy', 'move',
                 'access', 'lam', 'nothrow', 'tu')

    def __init__(self, o, tu):
        g = o.get
        self.fn, self.qn, self.file, self.line, self.eline = o['fn'], o['qn'], o['file'], o['l'], g('el', 0)
        self.ret, self.params = o['ret'], o['params']
        self.cls, self.clsfull = g('cls'), g('clsfull')
        self.virtual, self.static, self.const = g('virtual', False), g('static', False), g('const', False)
        self.overrides, self.kind, self.inits = g('overrides', []), g('kind'), g('inits', [])
        self.body, self.externc, self.defaulted = g('body'), g('externc', False), g('defaulted', False)
        self.targs, self.copy, self.move = g('targs'), g('copy', False), g('move', False)
        self.access, self.lam, self.nothrow, self.tu = g('access', 3), g('lam', False), g('nothrow', False), tu

    @property
    def where(self):
        return '%s:%d' % (rel(self.file), self.line)

    def __repr__(self):
        return '<Fn %s>' % self.qn


def rel(f):
    if f.startswith(REPO + '/'):
        return f[len(REPO) + 1:]
    if f.startswith(VERIF + '/'):
        return 'verif:' + f[len(VERIF) + 1:]
    return f


class Program:
    def __init__(self, overrides=None, tus=None, want_drivers=True):
        exe = ensure_tool()
        self.tmp = tempfile.mkdtemp(prefix='saltsa.')
        try:
            self.config = gen_config(self.tmp, overrides)
            srcs = sorted(glob.glob(REPO + '/src/*.cpp'))
            if not srcs:
                raise AnalysisBroken('no sources in %s/src' % REPO)
            drivers = [VERIF + '/tool/drivers/%s.cpp' % d for d in ('net', 'core', 'ref', 'events')] if want_drivers else []
            flags = ['-std=gnu++14', '-include', 'cstdint', '-w', '-I' + REPO + '/include', '-I' + self.tmp,
                     '-I' + self.tmp + '/salticidae', '-resource-dir=/usr/lib/llvm-18/lib/clang/18']
            allf = srcs + drivers

            def one(f):
                p = subprocess.run([exe, REPO + '/', VERIF + '/tool/drivers/', f, '--'] + flags,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                return f, p.returncode, p.stdout, p.stderr.decode(errors='replace')
            with ThreadPoolExecutor(8) as ex:
                outs = list(ex.map(one, allf))
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.functions = {}
        self.records = {}
        self.rec_by_qn = {}
        self.enums = {}
        self.gvars = {}
        self.by_qn = {}
        self.tus = []
        for f, rc, out, err in outs:
            if rc:
                raise AnalysisBroken('cannot parse %s: %s' % (rel(f), err[-400:]))
            d = json.loads(out)
            self.tus.append(rel(f))
            for r in d['records']:
                self.records.setdefault(r['full'], r)
                self.rec_by_qn.setdefault(r['qn'], r)
            for e in d['enums']:
                if e['e']:
                    self.enums[e['qn'] if not e['qn'].endswith('(anon)') else e['qn'] + str(e['l'])] = e
            for g in d['gvars']:
                if g['qn'] not in self.gvars or (g.get('def') and not self.gvars[g['qn']].get('def')) \
                        or ('cv' in g and 'cv' not in self.gvars[g['qn']]):
                    self.gvars[g['qn']] = g
            for o in d['functions']:
                if o['fn'] in self.functions:
                    if self.functions[o['fn']].body is None and o.get('body') is not None:
                        fn = Fn(o, rel(f))
                        old = self.functions[o['fn']]
                        self.by_qn[fn.qn].remove(old)
                        self.functions[o['fn']] = fn
                        self.by_qn[fn.qn].append(fn)
                    continue
                fn = Fn(o, rel(f))
                self.functions[fn.fn] = fn
                self.by_qn.setdefault(fn.qn, []).append(fn)
        self.overridden_by = {}
        for fn in self.functions.values():
            for o in fn.overrides:
                self.overridden_by.setdefault(o, []).append(fn)
        self._bases = {}

    # ---- classes -----------------------------------------------------
    def is_base(self, qn):
        """some class derives from qn"""
        return any(qn in r['bases'] for r in self.rec_by_qn.values())

    def bases(self, qn):
        """qn and all its (transitive) base class names"""
        if qn in self._bases:
            return self._bases[qn]
        res = [qn]
        r = self.rec_by_qn.get(qn)
        if r:
            for b in r['bases']:
                for x in self.bases(b):
                    if x not in res:
                        res.append(x)
        self._bases[qn] = res
        return res

    def is_a(self, qn, base):
        return base in self.bases(qn)

    def field(self, rec, name):
        r = self.rec_by_qn.get(rec)
        if r:
            for f in r['fields']:
                if f['n'] == name:
                    return f
        return None

    def fns(self, qn, nonempty=True):
        l = [f for f in self.by_qn.get(qn, []) if f.body is not None]
        return l

    def one(self, qn, pred=None):
        l = self.fns(qn)
        if pred:
            l = [f for f in l if pred(f)]
        if not l:
            raise AnalysisBroken('anchor function %s not found' % qn)
        return l[0]

    def methods_of(self, cls):
        return [f for f in self.functions.values() if f.cls == cls and f.body is not None]


def walk(node):
    """all dict nodes of a subtree (pre-order), descending into lambdas"""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            if 'k' in n:
                yield n
            for v in reversed(list(n.values())):
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(n, list):
            for v in reversed(n):
                if isinstance(v, (dict, list)):
                    stack.append(v)
