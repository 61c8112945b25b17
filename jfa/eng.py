"""Engine world: compile / load / execute evaluated end to end over a JIT model with faults at every fallible step."""
from .cg import *
from .orcsim import *
from .reg import *

STRUCT = {'String': 'StringStruct', 'StringList': 'StringListStruct'}
for _t in NUMS:
    STRUCT[_t + 'List'] = _t + 'ListStruct'


class Eng(CGCheck):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.orc = Orc()
        self.m.extra.insert(0, self.orc)
        self.m.orc = self.orc
        self.orc.on_call = self.jit_call
        self.listlen = 2
        self.run_error = False
        self.calls = []
        # probe the value field once with a real code generator
        outs = self.it.explore(lambda: self.context())
        if self.value_field is None:
            raise Broken('code generator probe failed')
        self.on_accept = self.node_accept
        self.it.override[NS + 'Arena::Reset'] = self.arena_reset
        self.arena_cells = []
        self.error_texts = {}

    def arena_reset(self, it, fd, this, a, e):
        it.event('arena_reset', arena=this)
        for c in self.arena_cells:  # results living in the arena die here
            del c[:]
        self.arena_cells = []
        return NotImplemented

    # registry stand-in: only its mapping and attribute entry points matter here
    def fresh_registry(self):
        return Cell(UPtr(Ptr(empty_registry(self))))

    def node_accept(self, it, s, this, a):
        vis = a[0].v if isinstance(a[0], Cell) else a[0]
        if isinstance(vis, Ptr):
            vis = vis.target().v
        cls = (vis.cls.q or '').split('::')[-1]
        it.event('accept', stub=s, visitor=vis, cls=cls)
        if cls == 'Validator':
            if self.orc.fail(it, 'validate'):
                return self.fail('ParseError')
            return self.ok()
        if cls == 'CodeGen':
            if self.orc.fail(it, 'codegen'):
                return self.fail('RuntimeError')
            b = self.builder_of(vis)
            v = LV('child', [], LTY[s.ty], name=s.name)
            v.bb = b.bb
            b.bb.insts.append(v)
            vis.f[self.value_field].v = None if s.ty == 'Void' else v
            return self.ok()
        raise Broken('node visited by %s' % cls)

    def builder_of(self, vis):
        found = []

        def walk(v, d):
            if isinstance(v, Cell):
                v = v.v
            if isinstance(v, LBuilder):
                if not any(v is x for x in found):
                    found.append(v)
            elif isinstance(v, Obj) and d < 4:
                for c in v.f.values():
                    walk(c, d + 1)
            elif isinstance(v, (Ptr,)) and d < 4:
                walk(v.target(), d + 1)
            elif isinstance(v, UPtr) and v.p is not None and d < 4:
                walk(v.p, d + 1)
        walk(vis, 0)
        if len(found) != 1:
            raise Broken('code generator holds %d builders' % len(found))
        return found[0]

    # ---- calling a compiled entry -------------------------------------
    def jit_call(self, it, addr, ft, a, e):
        t = ft
        while t is not None and t.k in ('ptr', 'ref', 'paren'):
            t = t.e
        ret = e['t']
        rec = {'addr': addr, 'ret': ret, 'args': [rv(x) for x in a], 'loc': it.loc()}
        it.event('jitcall', **{k: v for k, v in rec.items() if k != 'loc'})
        if self.run_error and it.choose(2, ('runerr',)) == 1:
            ctxp = rv(a[1])
            c = ctxp.target() if isinstance(ctxp, Ptr) else None
            if c is None:
                it.event('nullderef', what='null context')
                raise Abort('null context')
            self.call(NS + 'ExecContext::AddError', c, 'boom1-' + addr.name)
            self.call(NS + 'ExecContext::AddError', c, 'boom2-' + addr.name)
            it.event('runtime_error')
        return self.value_of(ret, addr)

    def value_of(self, ret, addr):
        if ret.k == 'void':
            return None
        n = addr.name
        if ret.k == 'rec':
            r = self.p.rec(ret)
            o = Obj(ret)
            pf, lf = r.fields[0], r.fields[1]
            k = self.listlen
            et = pf.type.e
            if self.p.rec(et) is not None:
                er = self.p.rec(et)
                cells = []
                for i in range(k):
                    s = Obj(et)
                    s.f[er.fields[0].name] = Cell(self.arena_str('%s\0.%d' % (n, i)))
                    s.f[er.fields[1].name] = Cell(len('%s\0.%d' % (n, i)))
                    cells.append(Cell(s))
            elif et.s.replace('const ', '') == 'char':
                o.f[pf.name] = Cell(self.arena_str(n + '\0' + 'x' * k) if k else None)
                o.f[lf.name] = Cell(len(n + '\0' + 'x' * k) if k else 0)
                return o
            else:
                cells = [Cell(Sym(('elem', n, i), et)) for i in range(k)]
            self.arena_cells.append(cells)
            o.f[pf.name] = Cell(Ptr(None, cells, 0) if k else None)
            o.f[lf.name] = Cell(k)
            return o
        return Sym(('retval', n), ret)

    def arena_str(self, s):
        p = self.cstr(s)
        self.arena_cells.append(p.arr if hasattr(p, 'arr') else p.cells)
        return p

    def cstr(self, s):
        """char* to the given bytes."""
        return Ptr(None, [Cell(ord(c)) for c in s] , 0)

    # ---- engines ----------------------------------------------------------
    def option(self, save=1, fp=None, dump=0):
        t = self.p.types[NS + 'ExecEngineOption']
        o = Obj(t)
        self.it.default_fields(self.p.rec(t), o, set())
        o.f['enable_save_compiled'].v = save
        o.f['dump_ir'].v = dump
        if fp is not None:
            o.f['fp_math_mode'].v = self.p.enum(NS + 'FPMathMode')['names'][fp]
        return o

    def engine(self, cls, **kw):
        return Cell(self.new(cls, self.option(**kw), pred=lambda d: d.p[0].strip().q == NS + 'ExecEngineOption' or True))

    def owned_jits(self, cell):
        out = []
        seen = set()

        def walk(v):
            if isinstance(v, LJit):
                out.append(v)
                return
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, Cell):
                walk(v.v)
            elif isinstance(v, Obj):
                for c in v.f.values():
                    walk(c)
            elif isinstance(v, UPtr):
                walk(v.p)
            elif isinstance(v, Ptr) and v.cell is not None:
                walk(v.cell)
            elif isinstance(v, Vec):
                for c in v.c:
                    walk(c)
        walk(cell)
        return out

    def do_compile(self, eng, cls, stubs):
        q = NS + cls + '::Compile'
        if cls == 'ExecEngine':
            return self.status(self.call(q, eng, Cell(self.up(stubs[0])), self.fresh_registry()))
        return self.status(self.call(q, eng, Cell(self.vec([self.up(s) for s in stubs])), self.fresh_registry()))

    def exec_fn(self, q, ctx, boxed):
        """Execute/ExecuteAt/ExecuteAll overload."""
        c = []
        for f in self.p.by_q.get(q, []):
            ps = [t.strip() for t in f.decl.p]
            hasctx = any((t.q or '') == NS + 'ExecContext' for t in ps)
            last = f.decl.p[-1]
            isvoid = last.k == 'ptr' and last.e.k == 'void'
            if hasctx == ctx and isvoid != boxed:
                c.append(f)
        if len(c) != 1:
            raise Broken('%s(context=%s, boxed=%s): %d overloads' % (q, ctx, boxed, len(c)))
        return c[0]

    # ---- artifacts ----
    def do_load(self, eng, cls, blob, opts=None):
        t = self.p.types[NS + 'LoadCompiledOptions']
        o = Obj(t)
        self.it.default_fields(self.p.rec(t), o, set())
        for k, v in (opts or {}).items():
            if k not in o.f:
                raise Broken('LoadCompiledOptions has no field %s' % k)
            o.f[k].v = v
        return self.status(self.call(NS + cls + '::LoadCompiled', eng, Cell(blob), self.fresh_registry(), Cell(o)))

    def do_save(self, eng, cls):
        out = Cell('')
        st = self.status(self.call(NS + cls + '::SaveCompiled', eng, Ptr(out)))
        return st, out.v

    def parse(self, blob):
        h = Cell(self.new('ArtifactHeader'))
        v = Cell('')
        st = self.status(self.call(NS + 'DeserializeArtifact', None, Cell(blob), Ptr(h), Ptr(v)))
        return st, h.v, v.v

    def do_execute(self, eng, cls, idx=None):
        """(status, jitcall event or None, boxed result) of one boxed execution without context."""
        f = self.exec_fn(NS + (cls + ('::Execute' if cls == 'ExecEngine' else '::ExecuteAt')), False, True)
        res = Cell(self.it.default_value(f.decl.p[-1].e))
        n = len(self.it.events)
        a = ([] if cls == 'ExecEngine' else [idx]) + [Ptr(Cell(Sym('arg'))), Ptr(res)]
        s = self.status(self.it.run_fn(f, eng, a))
        calls = [x for x in self.it.events[n:] if x['kind'] == 'jitcall']
        return s, calls, res.v
