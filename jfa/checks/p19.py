"""Executing only reads what executions share; no library code keeps state outside its objects."""
from ..eng import *
from ..query import nodes, refs, line
from ..prog import FDecl
from .p17 import make_ctx

EXPLAIN = ('Every function of the library is searched for uses of variables with static or thread storage that are not constant and for calls of C library functions with hidden state; the call '
           'graph from the execution entry points and the registered native functions bounds what may run concurrently; every execution overload is evaluated over the JIT model '
           'with each write to an object reachable from the engine recorded.')
ASSUME = ['generated code writes no global (constants are emitted as constant globals, C functions are the analysed ones)', 'LLVM entry points used by Compile are safe in their own right']
HIDDEN = set('strtok rand srand random srandom drand48 erand48 lrand48 mrand48 asctime ctime gmtime localtime strerror setlocale getenv setenv putenv unsetenv tmpnam lgamma lgammaf lgammal gamma signgam '
             'readdir gethostbyname getpwnam getpwuid getgrnam ttyname ecvt fcvt gcvt l64a basename dirname mblen mbtowc wctomb rand_r_ localeconv'.split())
OKTYPE = ('std::atomic', 'std::mutex', 'std::once_flag', 'std::shared_mutex', 'std::recursive_mutex')


def mutable(g):
    """Why the variable can change after its initialisation, or None."""
    t = g.type
    if any(x in t.s for x in OKTYPE):
        return None
    if g.tls:
        return 'thread-local variable'
    if not g.const:
        if t.k == 'ref' and t.s.replace(' ', '').startswith('const'):
            return None
        return 'static variable' if g.static_local else 'global variable'
    u = t
    while u.k == 'ptr':
        u = u.e
        if u.k != 'func' and not u.s.startswith('const ') and not u.s.endswith('const'):
            return 'constant pointer to mutable data'
    return None


def cells_of(root):
    """Every cell reachable from the engine object, not through the JIT model."""
    seen, out, st = set(), [], [root]
    while st:
        v = st.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, Cell):
            out.append(v)
            st.append(v.v)
        elif isinstance(v, Obj):
            st += list(v.f.values())
        elif isinstance(v, UPtr) and v.p is not None:
            st.append(v.p)
        elif isinstance(v, Ptr):
            if v.cell is not None:
                st.append(v.cell)
            elif v.arr is not None:
                st += list(v.arr)
        elif isinstance(v, Vec):
            st.append(v.c) if isinstance(v.c, Cell) else None
            st += [c for c in v.c if isinstance(c, Cell)]
        elif isinstance(v, Variant):
            st.append(v.c)
    return out


def shot(c):
    v = c.v
    return (id(v), len(v.c)) if isinstance(v, Vec) else v if isinstance(v, (int, str, float)) else id(v.p) if isinstance(v, UPtr) else id(v)


def run(ctx):
    w = Eng(ctx)
    w.real_text = True
    w.orc.faults = set()
    p, it = w.p, w.it
    es = extract(w)

    # call graph
    roots = {}
    for q in ('ExecEngine::Execute', 'BatchExecEngine::ExecuteAt', 'BatchExecEngine::ExecuteAll', 'ExecEngine::GetIRCode', 'BatchExecEngine::GetIRCode', 'ExecEngine::GetReturnType'):
        for f in p.by_q.get(NS + q, []):
            roots[f.decl.key] = f
    for q in ('AthenaExpression::Execute', 'AthenaPipeline::Execute'):
        for f in p.by_q.get('athena::' + q, []):
            roots[f.decl.key] = f
    if len(roots) < 10:
        raise Broken('%d execution entry points' % len(roots))
    nat = 0
    for e in es:
        if e.cfunc is not None and e.cfunc.key in p.funcs:
            roots[e.cfunc.key] = p.funcs[e.cfunc.key]
            nat += 1
    if nat < 1000:
        raise Broken('%d registered native functions' % nat)
    byname = {}
    for f in p.funcs.values():
        if f.decl.cls is not None:
            byname.setdefault(f.decl.n, []).append(f)
    exec_set = {}
    work = list(roots.values())
    calls = {}
    for f in p.funcs.values():
        try:
            calls[f.decl.key] = [(d, x) for d, x in refs(f)]
        except KeyError:
            calls[f.decl.key] = []
    while work:
        f = work.pop()
        if f.decl.key in exec_set:
            continue
        exec_set[f.decl.key] = f
        for d, x in calls[f.decl.key]:
            g = p.funcs.get(d.key)
            if g is not None and g.decl.key not in exec_set:
                work.append(g)
            if x.get('virt'):
                work += [h for h in byname.get(d.n, []) if h.decl.key not in exec_set]

    nglob = nuse = 0
    bad = {}
    gl = {}
    for q, gs in p.globals.items():
        for g in gs:
            nglob += 1
            why = mutable(g)
            if why:
                bad[(g.tu.n, g.raw['id'])] = (q, why, g)
            gl[(g.tu.n, g.raw['id'])] = g
    badnames = {q for q, _, _ in bad.values()}
    for f in p.funcs.values():
        hit = None
        lib = None
        for x in nodes(f):
            if x.get('k') == 'var' and x.get('glob') is not None:
                nuse += 1
                k = (f.tu.n, x.get('id'))
                q = x['glob']
                b = bad.get(k) or (next((v for v in bad.values() if v[0] == q), None) if k not in gl and q in badnames else None)
                if b and hit is None:
                    hit = (x, b)
        for d, x in calls[f.decl.key]:
            n = d.q.split('::')[-1]
            if n in HIDDEN and (d.q == n or d.q == 'std::' + n) and lib is None:
                lib = (x, n)
        where = line(hit[0], f) if hit else (f.file, f.line)
        run_ = f.decl.key in exec_set
        ctx.ob('shared-state', ('executed: ' if run_ else '') + f.q, hit is None, where,
               '%suses the %s %s' % ('can run during an execution and ' if run_ else '', hit[1][1], hit[1][0]) if hit else None)
        if run_:
            ctx.ob('hidden-state', f.q, lib is None, line(lib[0], f) if lib else None, 'calls %s, which keeps state between calls' % lib[1] if lib else None)
    ctx.need('shared-state', 2000)
    ctx.need('hidden-state', 900)
    ctx.stats.update(globals=nglob, uses=nuse, functions=len(p.funcs), executed=len(exec_set), roots=len(roots), natives=nat)

    # executions leave the engine as it is
    real = it.assign
    watch = {}

    def assign(cell, v):
        if id(cell) in watch:
            it.event('enginewrite', loc=it.loc())
        return real(cell, v)
    it.assign = assign

    def overloads(cls):
        for q in (['Execute'] if cls == 'ExecEngine' else ['ExecuteAt', 'ExecuteAll']):
            for f in p.by_q.get(NS + cls + '::' + q, []):
                yield f
    T = ['I32', 'F64', 'String', 'I64List', 'StringList', 'U8']
    for cls in ('ExecEngine', 'BatchExecEngine'):
        for f in overloads(cls):
            for t in T:
                for compiled in (True, False):
                    w.listlen = 2

                    def thunk():
                        w.arena_cells = []
                        watch.clear()
                        e = w.engine(cls)
                        if compiled and w.do_compile(e, cls, [w.stub('n%d' % i, t) for i in range(1 if cls == 'ExecEngine' else 2)]) != 'OK':
                            raise Broken('compile failed')
                        cs = cells_of(e)
                        watch.update({id(c): c for c in cs})
                        before = [shot(c) for c in cs]
                        w.run_error = True
                        try:
                            a = []
                            for i, pt in enumerate(f.decl.p):
                                s = pt.strip()
                                if (s.q or '') == NS + 'ExecContext':
                                    a.append(make_ctx(w))
                                elif s.k == 'int':
                                    a.append(0)
                                elif pt.k == 'ptr' and pt.e.k != 'void':
                                    a.append(Ptr(Cell(it.default_value(pt.e))))
                                else:
                                    a.append(Ptr(Cell(Sym('buffer'))))
                            w.it.run_fn(f, e, a)
                        finally:
                            w.run_error = False
                        after = [shot(c) for c in cs]
                        return len(cs), [i for i, (x, y) in enumerate(zip(before, after)) if x != y], len(cells_of(e))
                    for k, o in enumerate(it.explore(thunk)):
                        wr = [x for x in o['events'] if x['kind'] == 'enginewrite']
                        why = None
                        if o['kind'] != 'ret':
                            why = '%s %s' % (o['kind'], o.get('why'))
                        elif wr:
                            why = 'writes the engine at %s:%s' % wr[0]['loc'][:2]
                        elif o['ret'][1] or o['ret'][0] != o['ret'][2]:
                            why = 'the engine changed'
                        ctx.ob('engine-unchanged', '%s(%s) %s %s outcome %d' % (f.q, ', '.join(t_.s[:20] for t_ in f.decl.p), t, 'compiled' if compiled else 'empty', k), why is None, (f.file, f.line), why)
    ctx.need('engine-unchanged', 100)
