"""No failure is swallowed: when any internal step reports an error, the public call fails."""
import itertools
from ..eng import *
from ..lang import Lang
from ..par import pmap
from ..query import nodes, line
from ..models import strval
from .p31 import pool
A = 'athena::'

EXPLAIN = ('Compile, LoadCompiled, SaveCompiled (both engines), the Athena front ends, validation and registry creation are evaluated on the typed AST once per internal call that returns a status, with that '
           'call reporting an error, once instead of and once after doing its work; the outer call must then fail. Call sites no run reaches are examined syntactically: their status must be returned or tested.')
ASSUME = ['the programs of the pool exercise the call sites; the rest are covered by the syntactic rule', 'one failing step at a time']
BADEV = ('malformed', 'nullderef', 'oob', 'uninit')
# Statuses that are thrown away on purpose: the type conversions inside the inline-codegen lambdas, whose operand types registration has
# fixed (P16 runs every one of them), and the subtree heights the pipeline grouper sorts by (grouping is best effort).
TOTAL = ('ValueTypeToLLVMType', 'NumericTypeConvert', 'GetHeight')
BEST_EFFORT = 'PipelineGrouper::'


class Inject:
    """Makes the n-th internal call that returns a Status fail."""

    def __init__(self, w):
        self.w, self.n, self.at, self.sites = w, 0, None, []
        it = w.it
        self.orig = it.call_fn
        it.call_fn = self.call
        self.on = self.after = False

    def call(self, fd, this, args, e=None):
        t = fd.r
        if self.on and not any(BEST_EFFORT in f.fn.q for f in self.w.it.frames) and t is not None and t.k == 'rec' and (t.q or '') == NS + 'Status' and not fd.q.startswith(NS + 'Status::') and not fd.ctor:
            k = self.n
            self.n += 1
            s = self.w.it.loc()
            fr = self.w.it.frames[-1].fn if self.w.it.frames else None
            site = (s[0], s[1], fd.q)
            if self.at is None:
                self.sites.append(site)
            elif k == self.at:
                self.hit = site
                if self.after:
                    on, self.on = self.on, False
                    try:
                        self.orig(fd, this, args, e)
                    finally:
                        self.on = on
                st = self.w.fail('NotImplemented')
                return st
        return self.orig(fd, this, args, e)

    def runs(self, thunk):
        """[(site, outcome)] for every internal call of thunk() -> status text; first the plain run."""
        it = self.w.it

        def go(at):
            self.n, self.at, self.hit = 0, at, None
            if at is None:
                self.sites = []

            def th():
                self.n = 0
                if at is None:
                    del self.sites[:]
                self.on = False
                try:
                    return thunk(self)
                finally:
                    self.on = False
            rs = it.explore(th)
            if len(rs) != 1:
                return 'BAD %d outcomes' % len(rs)
            r = rs[0]
            bad = [x for x in r['events'] if x['kind'] in BADEV]
            if r['kind'] != 'ret':
                return 'BAD %s %s' % (r['kind'], r.get('why'))
            if bad:
                return 'BAD %s %s' % (bad[0]['kind'], bad[0].get('what'))
            return r['ret']
        base = go(None)
        sites = list(self.sites)
        out = []
        for self.after in (True, False):
            for k in range(len(sites)):
                r = go(k)
                out.append((sites[k], r, self.hit == sites[k]))
        self.after = False
        return base, out


def run(ctx):
    from ..reg import extract, hook_lookup
    w = Eng(ctx)
    w.real_text = True
    w.orc.faults = set()
    es = extract(w)
    hook_lookup(w, es)
    P = pool(w)
    inj = Inject(w)
    p = w.p
    covered = {}

    def measured(rule, name, base, out, ok_base='OK'):
        if base != ok_base and not (ok_base is None):
            ctx.ob(rule, name, False, None, 'plain run gives %s' % base)
            return
        per = {}
        for site, r, hit in out:
            covered[site] = covered.get(site, 0) + 1
            o = per.setdefault(site, [])
            if not hit:
                o.append('the failing call was not reached again')
            elif r == 'OK':
                o.append('the failure of %s is swallowed: the call reports success' % site[2])
            elif r.startswith('BAD'):
                o.append('after %s fails: %s' % (site[2], r[4:]))
        for site, why in per.items():
            ctx.ob(rule, '%s: %s' % (name, site[2].replace(NS, '')), not why, site[:2], why[0] if why else '')

    # ---- engines: compile, save, load
    names = [n for n in P]

    def compile_job(j):
        n, cls = j

        def th(i):
            e = w.engine(cls)
            node = P[n]()
            i.on = True
            q = NS + cls + '::Compile'
            st = w.call(q, e, Cell(node) if cls == 'ExecEngine' else Cell(w.vec([P['leaf I32'](), node])), w.fresh_registry())
            return w.status(st)
        return inj.runs(th)
    jobs = [(n, c) for n in names for c in ('ExecEngine', 'BatchExecEngine')]
    res = pmap(compile_job, jobs)
    nb = 0
    for (n, c), (base, out) in zip(jobs, res):
        if base.startswith('BAD'):
            raise Broken('compile of %s: %s' % (n, base))
        if base == 'OK':
            nb += 1
            measured('compile', '%s %s' % (c, n), base, out)
    if nb < 60:
        raise Broken('%d programs compile' % nb)
    for cls in ('ExecEngine', 'BatchExecEngine'):
        def save(i):
            e = w.engine(cls)
            if w.do_compile(e, cls, [w.stub('x', 'F64')]) != 'OK':
                raise Broken('plain compile fails')
            i.on = True
            st, b = w.do_save(e, cls)
            return st
        measured('save', cls, *inj.runs(save))

        def load(i):
            e = w.engine(cls)
            if w.do_compile(e, cls, [w.stub('x', 'F64')]) != 'OK':
                raise Broken('plain compile fails')
            st, b = w.do_save(e, cls)
            if st != 'OK':
                raise Broken('save fails')
            e2 = w.engine(cls)
            i.on = True
            return w.do_load(e2, cls, b)
        measured('load', cls, *inj.runs(load))

    # ---- registry creation: every registration that can fail
    from ..reg import sign_fields
    freg = p.fn(NS + 'FunctionRegistryFactory::CreateFunctionRegistry')
    seen = {}
    rf = NS + 'FunctionRegistry::RegisterFunc'
    state = {'at': None, 'n': 0, 'sites': [], 'locs': []}

    def regf(it, fd, this, a, e):
        k = state['n']
        state['n'] += 1
        if state['at'] is None:
            state['sites'].append(tuple((f.loc or ('?', 0)) for f in it.frames if f.loc and not f.loc[0].startswith('/')))
        return w.fail('NotImplemented') if k == state['at'] else w.ok()
    w.it.override[rf] = regf

    def create(at):
        state['at'] = at
        state['n'] = 0

        def th():
            state['n'] = 0
            if at is None:
                del state['sites'][:]
            up = Cell(UPtr(None))
            return w.status(w.call(NS + 'FunctionRegistryFactory::CreateFunctionRegistry', None, Ptr(up)))
        rs = w.it.explore(th)
        return rs[0]['ret'] if len(rs) == 1 and rs[0]['kind'] == 'ret' else 'BAD %s' % rs[0].get('why')
    if create(None) != 'OK':
        raise Broken('registry creation fails')
    sites = list(state['sites'])
    pick = {}
    for k, s in enumerate(sites):
        pick.setdefault(s, k)
    picks = sorted(pick.values()) if not ctx.thorough else list(range(len(sites)))
    if len(sites) < 1000:
        raise Broken('%d registrations' % len(sites))
    for k, r in zip(picks, pmap(create, picks)):
        s = sites[k]
        l = next((x for x in reversed(s) if not x[0].endswith(('function_registry.cc', 'function_registry.h'))), s[-1])
        ctx.ob('registry', 'registration %d' % k, r not in ('OK',) and not r.startswith('BAD'), l, 'a failing registration is swallowed: creating the registry gives %s' % r)
    del w.it.override[rf]

    # ---- the language front end
    lg = Lang(p)
    linj = Inject(lg)
    from .p26 import programs as progs26
    progs = list(progs26())

    def build_job(j):
        m, s = j

        def th(i):
            b = Cell(lg.new(A + 'ProgramAstBuilder'))
            rs = Cell(UPtr(None))
            i.on = True
            st = lg.call(A + 'ProgramAstBuilder::Build' + ('Expression' if m == 'E' else 'Pipeline'), b, Cell(s), Ptr(rs))
            return lg.status(st)
        return linj.runs(th)

    def front_job(j):
        m, s = j

        def th(i):
            cls = 'AthenaExpression' if m == 'E' else 'AthenaPipeline'
            o = Cell(lg.new(A + cls, lg.opt()))
            i.on = True
            st = lg.call(A + cls + '::Compile', o, Cell(s) if m == 'E' else Cell(lg.vec([s, 'f(1);'])), Cell(UPtr(None)))
            return lg.status(st)
        return linj.runs(th)

    def opt():
        t = p.types[NS + 'ExecEngineOption']
        o = Obj(t)
        lg.it.default_fields(p.rec(t), o, set())
        return o
    lg.opt = opt
    for (m, s), (base, out) in zip(progs, pmap(build_job, progs)):
        measured('front-end', s, base, out)
    for e in ('ExecEngine', 'BatchExecEngine'):
        lg.it.override[NS + e + '::Compile'] = lambda it, fd, this, a, e: lg.ok()
    fjobs = [x for x in progs if len(x[1]) > 20][::3]
    for (m, s), (base, out) in zip(fjobs, pmap(front_job, fjobs)):
        measured('front-end', 'compile of ' + s, base, out)

    # ---- every other call site: the status is not dropped
    def is_status(t):
        return t is not None and t.k == 'rec' and (t.q or '') == NS + 'Status'
    total = sites_cov = 0
    covset = {(f, l) for f, l, q in covered}
    for key in sorted(p.funcs):
        f = p.funcs[key]
        if not f.file.startswith(('src/', 'include/', 'athena/')) or '/test' in f.file:
            continue
        dropped = set()
        for x in nodes(f):
            for st in (x.get('b') if x.get('k') == 'block' and isinstance(x.get('b'), list) else ()):
                y = st
                while isinstance(y, dict) and y.get('k') in ('cast', 'icast', 'paren', 'cleanup', 'expr', 'tmp', 'bind', 'ecast', 'mat') and isinstance(y.get('e'), dict):
                    y = y['e']
                dropped.add(id(y))
        for x in nodes(f):
            if x.get('k') == 'call' and 'f' in x and not isinstance(x['f'], str) and getattr(x['f'], 'r', None) is not None and is_status(x['f'].r) and not x['f'].q.startswith(NS + 'Status::'):
                total += 1
                l = line(x, f)
                sites_cov += (l[0], l[1]) in covset
                q = x['f'].q.replace(NS, '')
                ctx.ob('site', '%s in %s' % (q, f.q.split('(')[0]), id(x) not in dropped or q.split('(')[0].split('::')[-1] in TOTAL, l, 'the status of %s is dropped' % q)
    ctx.stats.update(status_call_sites=total, exercised_sites=sites_cov, failing_runs=sum(covered.values()) + len(picks))
    for k, m in (('compile', 300), ('save', 2), ('load', 4), ('registry', 100), ('front-end', 80), ('site', 200)):
        ctx.need(k, m)
