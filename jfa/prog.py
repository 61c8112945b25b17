"""Export /repo's typed AST with jfx and load it as one program."""
import concurrent.futures
import glob
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JFA_REPO', '/repo')
BUILD = os.environ.get('JFA_BUILD', os.path.join(VERIF, 'build'))
LLVM18 = '/usr/lib/llvm-18'
JFX = os.path.join(BUILD, 'jfx')
CXXFLAGS = ['-std=c++17', '-DNDEBUG', '-I%s/include' % REPO, '-I%s/src' % REPO, '-I%s/athena' % REPO,
            '-isystem', '/usr/lib/llvm-19/include']


class Broken(Exception):
    """The analysis itself cannot give an answer (vanished anchor, unmodelled construct)."""


def log(*a):
    print(*a)
    sys.stdout.flush()


def build_tool(name, src, libs):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, name)
    srcp = os.path.join(VERIF, 'tool', src)
    h = hashlib.sha256(open(srcp, 'rb').read()).hexdigest()
    stamp = out + '.stamp'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    tmp = out + '.tmp%d' % os.getpid()
    cmd = ['g++', '-O0', '-std=c++17', '-I' + LLVM18 + '/include', srcp, '-o', tmp] + libs
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build %s: %s' % (name, r.stderr[-2000:]))
    os.replace(tmp, out)
    open(stamp, 'w').write(h)
    return out


def build_jfx():
    return build_tool('jfx', 'jfx.cc', [LLVM18 + '/lib/libclang-cpp.so.18.1', LLVM18 + '/lib/libLLVM-18.so'])


def lib_sources():
    s = []
    for pat in ('src/*.cc', 'src/*/*.cc', 'athena/*.cc'):
        s += sorted(glob.glob(os.path.join(REPO, pat)))
    if not s:
        raise Broken('no sources under ' + REPO)
    return s


def tree_hash():
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, 'tool', 'jfx.cc'), 'rb').read())
    for d in ('include', 'src', 'athena'):
        for root, _, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


PCH_HDRS = """algorithm array cctype cerrno charconv climits cmath cstddef cstdint cstdio cstdlib cstring functional
iostream limits map memory new optional set sstream stdexcept string string_view tuple type_traits unordered_map
unordered_set utility variant vector
llvm/ExecutionEngine/Orc/LLJIT.h llvm/IR/Attributes.h llvm/IR/IRBuilder.h llvm/IR/Module.h llvm/IR/Verifier.h
llvm/ExecutionEngine/ExecutionEngine.h llvm/ExecutionEngine/Orc/ObjectTransformLayer.h llvm/Passes/PassBuilder.h
llvm/Support/DynamicLibrary.h llvm/Support/MemoryBuffer.h llvm/Support/TargetSelect.h llvm/Support/raw_ostream.h
llvm/Target/TargetMachine.h llvm/TargetParser/Host.h llvm/IR/Intrinsics.h llvm/IR/Constants.h""".split()


def build_pch():
    """External headers only (std, LLVM): the repository's own files are always parsed afresh."""
    out = os.path.join(BUILD, 'ext.pch')
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    h = os.path.join(BUILD, 'ext.h')
    with open(h, 'w') as f:
        f.write(''.join('#include <%s>\n' % x for x in PCH_HDRS))
    tmp = out + '.tmp%d' % os.getpid()
    ext = [x for x in CXXFLAGS if not x.startswith('-I')]
    r = subprocess.run(['/usr/bin/clang++-18', '-fpch-instantiate-templates', '-x', 'c++-header', '-Wno-everything', h, '-o', tmp] + ext,
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build pch: ' + r.stderr[-1500:])
    os.replace(tmp, out)
    return out


def export(srcs):
    """Runs jfx over srcs; returns list of JSON paths (cached by content of the whole tree)."""
    with concurrent.futures.ThreadPoolExecutor(max_workers=2) as ex:
        a = ex.submit(build_jfx)
        b = ex.submit(build_pch)
        a.result()
        pch = b.result()
    d = os.path.join(BUILD, 'ast', tree_hash())
    os.makedirs(d, exist_ok=True)
    jobs = []
    outs = []
    for s in srcs:
        o = os.path.join(d, os.path.relpath(s, REPO).replace('/', '__') + '.json')
        outs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))

    def one(j):
        s, o = j
        tmp = o + '.tmp%d' % os.getpid()
        r = subprocess.run([JFX, REPO, tmp, s, '--', '-include-pch', pch] + CXXFLAGS + ['-resource-dir', LLVM18 + '/lib/clang/18'],
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            return s, r.stderr[-1500:]
        os.replace(tmp, o)
        return None

    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for r in ex.map(one, jobs):
            if r:
                raise Broken('front end failed on %s:\n%s' % r)
    # keep the cache small
    ast = os.path.join(BUILD, 'ast')
    olds = sorted((os.path.getmtime(os.path.join(ast, x)), x) for x in os.listdir(ast))
    for _, x in olds[:-4]:
        p = os.path.join(ast, x)
        if p != d:
            for f in os.listdir(p):
                os.unlink(os.path.join(p, f))
            os.rmdir(p)
    return outs


class Type:
    __slots__ = ('s', 'k', 'w', 'sg', 'e', 'n', 'q', 'ta', 'const', 'rv', 'p', 'r', 'lam', 'sz', 'al')

    def __init__(self):
        for a in Type.__slots__:
            setattr(self, a, None)

    def __repr__(self):
        return 'T<%s>' % self.s

    def strip(self):
        t = self
        while t.k == 'ref':
            t = t.e
        return t

    @property
    def name(self):
        return self.s


class FDecl:
    __slots__ = ('key', 'q', 'n', 'm', 'r', 'p', 'repo', 'cls', 'virt', 'pure', 'static', 'const', 'ctor', 'dtor', 'conv',
                 'copyctor', 'movector', 'defctor', 'copyassign', 'moveassign', 'defaulted', 'deleted', 'implicit',
                 'over', 'ta', 'op', 'nothrow', 'noret', 'nodiscard', 'int', 'va', 'acc', 'body')

    def __init__(self):
        for a in FDecl.__slots__:
            setattr(self, a, None)

    def __repr__(self):
        return 'F<%s>' % self.q


class Func:
    """A defined function; the JSON body is linked (types/decls resolved) lazily."""

    def __init__(self, tu, raw, decl):
        self.tu = tu
        self.raw = raw
        self.decl = decl
        self.file, self.line = tu.loc(raw['l'])
        self.endline = tu.loc(raw['e'])[1]
        self._linked = False

    @property
    def q(self):
        return self.decl.q

    def link(self):
        if not self._linked:
            self.params = [(p[0], p[1], self.tu.type(p[2])) for p in self.raw['ps']]
            self.params = [(('%s' % self.tu.n, p[0]), p[1], p[2]) for p in self.params]
            self.inits = [self.tu.link(i) for i in self.raw.get('inits', [])]
            self.body = self.tu.link(self.raw.get('b'))
            self._linked = True
        return self

    def __repr__(self):
        return 'Func<%s %s:%d>' % (self.decl.q, self.file, self.line)


class TU:
    def __init__(self, prog, n, path):
        self.prog = prog
        self.n = n
        self.j = json.load(open(path))
        self.files = [os.path.relpath(f, REPO) if f.startswith(REPO + '/') else f for f in self.j['files']]
        self._t = {}
        self._f = {}

    def loc(self, l):
        if l[0] < 0:
            return ('?', 0)
        return (self.files[l[0]], l[1])

    def type(self, i):
        if i is None or i < 0:
            return None
        if i in self._t:
            return self._t[i]
        j = self.j['types'][i]
        s = j['s']
        if 'lambda' in j:
            s = s + '#tu%d' % self.n
        t = self.prog.types.get(s)
        if t is not None and not (t.k == 'rec' and t.sz is None and 'sz' in j):
            self._t[i] = t
            return t
        if t is None:
            t = Type()
            self.prog.types[s] = t
        self._t[i] = t
        t.s = s
        t.k = j.get('k', 'other')
        t.w = j.get('w')
        t.sg = j.get('sg')
        t.n = j.get('n')
        t.q = j.get('q')
        t.const = j.get('const', False)
        t.rv = j.get('rv')
        t.sz = j.get('sz')
        t.al = j.get('al')
        if 'lambda' in j:
            t.lam = (self.n, j['lambda'])
        if 'e' in j:
            t.e = self.type(j['e'])
        if 'ta' in j:
            t.ta = [self.targ(a) for a in j['ta']]
        if t.k == 'fn':
            t.r = self.type(j['r'])
            t.p = [self.type(x) for x in j['p']]
        return t

    def targ(self, a):
        if 'f' in a:
            return ('f', self.fdecl(a['f']))
        if 'v' in a:
            return ('v', a['v'], self.type(a['t']))
        if 't' in a:
            return ('t', self.type(a['t']))
        return ('o', a.get('d'))

    def fdecl(self, i):
        if i in self._f:
            return self._f[i]
        j = self.j['decls'][i]
        m = j.get('m') or j['q']
        cls = self.type(j['cls']) if 'cls' in j else None
        key = m
        if j.get('int') or (cls is not None and '#tu' in cls.s) or 'lambda' in m.lower() or '$_' in m:
            key = 'tu%d:%s' % (self.n, m)
        d = self.prog.fdecls.get(key)
        if d is None:
            d = FDecl()
            self.prog.fdecls[key] = d
            d.key = key
            for k, v in j.items():
                if k in ('r', 'p', 'cls', 'over', 'ta'):
                    continue
                setattr(d, k, v)
            d.cls = cls
            self._f[i] = d
            d.r = self.type(j['r'])
            d.p = [self.type(x) for x in j['p']]
            d.over = [self.fdecl(x) for x in j.get('over', [])]
            d.ta = [self.targ(a) for a in j['ta']] if 'ta' in j else None
        self._f[i] = d
        return d

    def link(self, n):
        """Resolve type/decl indices of a JSON node, recursively, in place."""
        if n is None:
            return None
        st = [n]
        vid = '%s' % self.n
        while st:
            o = st.pop()
            if isinstance(o, list):
                for x in o:
                    if isinstance(x, (dict, list)):
                        st.append(x)
                continue
            if '#' in o:
                continue
            o['#'] = 1
            for k, v in o.items():
                if k == 't' and isinstance(v, int):
                    o[k] = self.type(v)
                elif k in ('et', 'ct', 'b') and isinstance(v, int):
                    o[k] = self.type(v)
                elif k == 'l' and isinstance(v, list):
                    o[k] = self.loc(v)
                elif k == 'id' and isinstance(v, int):
                    o[k] = (vid, v)
                elif k == 'binds':
                    o[k] = [((vid, x[0]), x[1]) for x in v]
                elif k in ('f', 'on') and isinstance(v, int):
                    o[k] = self.fdecl(v)
                elif k == 'ops':
                    o[k] = [self.fdecl(x) for x in v]
                elif k == 'rec' and isinstance(v, int):
                    o[k] = (self.n, v)
                elif k == 'fn':
                    pass
                elif isinstance(v, (dict, list)):
                    st.append(v)
        return n


class Record:
    pass


class Program:
    def __init__(self, srcs=None):
        self.types = {}
        self.fdecls = {}
        self.funcs = {}
        self.lib = {}
        self.by_q = {}
        self.records = {}
        self.lambdas = {}
        self.enums = {}
        self.globals = {}
        self.srcs = srcs or lib_sources()
        paths = export(self.srcs)
        self.tus = [TU(self, i, p) for i, p in enumerate(paths)]
        for tu in self.tus:
            for e in tu.j['enums']:
                self.enums[e['q']] = {'names': {n: v for n, v in e['v']}, 'vals': {v: n for n, v in reversed(e['v'])},
                                      'loc': tu.loc(e['l']), 'order': [n for n, _ in e['v']]}
            for r in tu.j['records']:
                t = tu.type(r['t'])
                rec = Record()
                rec.q = r['q']
                rec.type = t
                rec.loc = tu.loc(r['l'])
                rec.raw = r
                rec.tu = tu
                rec.bases = [tu.type(b) for b in r['bases']]
                rec.fields = []
                rec.sconst = r['sconst']
                rec.triv = r['triv']
                for f in r['fields']:
                    ff = Record()
                    ff.name = f['n']
                    ff.type = tu.type(f['t'])
                    ff.mut = f['mut']
                    ff.acc = f['acc']
                    ff.loc = tu.loc(f['l'])
                    ff.off = f.get('off')
                    ff.init = f.get('init')
                    ff.tu = tu
                    rec.fields.append(ff)
                rec.methods = r['methods']
                if r['lambda']:
                    self.lambdas[(tu.n, r['id'])] = rec
                if t.s not in self.records:
                    self.records[t.s] = rec
            for f in tu.j['funcs']:
                d = tu.fdecl(f['d'])
                if f.get('lib'):
                    if d.key not in self.lib:
                        self.lib[d.key] = Func(tu, f, d)
                    continue
                if d.key in self.funcs:
                    continue
                fn = Func(tu, f, d)
                self.funcs[d.key] = fn
                self.by_q.setdefault(d.q, []).append(fn)
            for g in tu.j['globals']:
                key = (tu.n, g['id'])
                o = Record()
                o.q = g['q']
                o.type = tu.type(g['t'])
                o.loc = tu.loc(g['l'])
                o.const = g['const']
                o.static_local = g['loc']
                o.tls = g['tls']
                o.raw = g
                o.tu = tu
                self.globals.setdefault(o.q, []).append(o)

    def rec(self, t):
        """Record of type t (ignoring cv)."""
        if t is None:
            return None
        s = t.s
        r = self.records.get(s)
        if r is None and s.startswith('const '):
            r = self.records.get(s[6:])
        return r

    def fn(self, q, npar=None, pred=None):
        c = [f for f in self.by_q.get(q, []) if (npar is None or len(f.decl.p) == npar) and (pred is None or pred(f))]
        if len(c) != 1:
            raise Broken('anchor %s: %d definitions' % (q, len(c)))
        return c[0]

    def enum(self, q):
        if q not in self.enums:
            raise Broken('anchor enum %s vanished' % q)
        return self.enums[q]
