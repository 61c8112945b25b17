"""World with the LLVM construction model: abstractly evaluates the code generator on typed stub operands."""
from . import llvmsim
from .llvmsim import *
from .world import *

LTY = {'Void': VOID, 'U8': tint(8), 'I8': tint(8), 'U16': tint(16), 'I16': tint(16), 'U32': tint(32), 'I32': tint(32),
       'U64': tint(64), 'I64': tint(64), 'F32': FLOAT, 'F64': DOUBLE, 'Ptr': PTR}
PAIR = mk('struct', elts=(PTR, tint(32)))
for _t in ['String'] + LISTS:
    LTY[_t] = PAIR


class CG(World):
    def __init__(self, ctx=None, prog=None):
        self.sim = llvmsim.LLVM()
        super().__init__((self.sim,), prog)
        self.ctx = ctx
        self.value_field = None
        self.registry = None
        self.split_child = True

    # a fresh code generation context
    def context(self, ret='Void'):
        p = self.p
        mod = LMod(LCtx())
        self.mod = mod
        self.entry = LFn('entry', mk('fn', ret=LTY[ret], elts=(PTR, PTR, PTR)), mod)
        self.entry_bb = LBB('entryBB', self.entry)
        self.builder = LBuilder(self.entry_bb)
        st = p.types.get(NS + 'LLVMStructType')
        cs = Obj(st)
        rec = p.rec(st)
        for f in rec.fields:
            cs.f[f.name] = Cell(PAIR)
        self.reg_cell = Cell(UPtr(Ptr(Cell(self.registry if self.registry is not None else Obj(p.types[NS + 'FunctionRegistry'])))))
        ctxo = self.new('IRCodeGenContext', Cell(mod.ctx), Cell(mod), Cell(self.builder), self.entry, cs, self.reg_cell)
        self.ctxc = Cell(ctxo)
        cg = self.new('CodeGen', self.ctxc)
        self.cgc = Cell(cg)
        self.on_accept = self.child_accept
        self.child_fail = None
        if self.value_field is None:
            self.find_value_field()
        return self.cgc

    def find_value_field(self):
        """Which CodeGen field receives the value of a visited node (probed on a leaf)."""
        self.visit('CodeGen', self.cgc, 'OutputNode', self.new('OutputNode'))
        c = [k for k, v in self.cgc.v.f.items() if isinstance(v.v, LV) and v.v.op == 'arg']
        if len(c) != 1:
            raise Broken('cannot tell which CodeGen field carries the result')
        self.value_field = c[0]
        self.cgc.v.f[c[0]].v = None

    @property
    def value(self):
        return self.cgc.v.f[self.value_field].v

    def child_accept(self, it, s, this, a):
        vis = a[0].v if isinstance(a[0], Cell) else a[0]
        if isinstance(vis, Ptr):
            vis = vis.target().v
        if s.name == self.child_fail:
            return self.fail('RuntimeError')
        v = None
        if self.builder.bb is None or self.builder.bb.ended:
            it.event('malformed', what='child evaluated with no open block')
        if s.ty != 'Void' or True:
            v = LV('child', [], LTY[s.ty], name=s.name)
            v.bb = self.builder.bb
            v.loc = it.loc()
            self.builder.bb.insts.append(v)
        if self.split_child:
            nb = LBB('end.' + s.name, self.entry)
            br = LV('br', [nb], VOID)
            br.bb = self.builder.bb
            self.builder.bb.insts.append(br)
            self.builder.bb = nb
        vis.f[self.value_field].v = None if s.ty == 'Void' else v
        if s.kind == 'effect' and s.hook:
            s.hook(vis)
        it.event('accept', stub=s)
        return self.ok()

    def gen(self, cls, make, ret='Void', rt=None, fail=None, pre=None):
        """Thunk evaluating CodeGen::Visit(cls) over make(); gives (status, value, paths)."""
        loc = [('?', 0)]

        def thunk():
            self.context(ret)
            self.child_fail = fail
            n = make()
            if rt is not None:
                f = self.p.fn(NS + 'ExecNode::SetReturnType')
                self.it.run_fn(f, Cell(n), [self.T(rt)])
            if pre:
                pre()
            st, f = self.visit('CodeGen', self.cgc, cls, n)
            loc[0] = (f.file, f.line)
            s = self.status(st)
            if s != 'OK':
                return s, None, None, None
            v = self.value
            try:
                ps = paths(self.entry_bb, self.builder.bb)
                pr = check_cfg(self.entry)
                if pr:
                    return 'malformed', pr[0], None, None
            except Malformed as m:
                return 'malformed', str(m), None, None
            out = []
            for p in ps:
                try:
                    t = term_of(v, p.env) if isinstance(v, LV) else None
                except Malformed as m:
                    return 'malformed', str(m), None, None
                out.append((p.conds, p.trace, t, p))
            return 'OK', v, out, self.mod
        outs = self.it.explore(thunk)
        return outs, loc[0]


def child(name, ty, n=1):
    return ('child', str(LTY[ty]), name, n)


def conv(t, a, b):
    """Expected term of the numeric conversion a -> b."""
    if a == b:
        return t
    if is_int(a) and is_int(b):
        wa, wb = width(a), width(b)
        if wa == wb:
            return t
        if wa > wb:
            return T('trunc', 'i%d' % wb, t)
        return T('sext' if a[0] == 'I' else 'zext', 'i%d' % wb, t)
    if is_int(a):
        return T('sitofp' if a[0] == 'I' else 'uitofp', str(LTY[b]), t)
    if is_int(b):
        return T('fptosi' if b[0] == 'I' else 'fptoui', str(LTY[b]), t)
    return T('fpext' if b == 'F64' else 'fptrunc', str(LTY[b]), t)


def truth(t, ty):
    """Term of 'value is non-zero'."""
    if is_int(ty):
        return T('icmp ne', 'i1', t, T_const(LTY[ty], 0))
    return T('fcmp one', 'i1', t, T_const(LTY[ty], 0.0))


def show(t):
    if isinstance(t, tuple):
        if t and t[0] == 'child':
            return '$' + str(t[2])
        if t and t[0] == 'c':
            return '%s' % (t[2],)
        return '%s(%s)' % (t[0], ', '.join(show(x) for x in t[2:]))
    return str(t)


def split_trace(tr):
    return tuple(x[1] for x in tr if x[0] == 'child'), tuple(x for x in tr if x[0] != 'child')


class CGCheck(CG):
    """compare(): abstract evaluation of one code generation visitor against the expected set of paths."""

    def compare(self, rule, row, cls, make, rt, want, calls=None, ret='Void'):
        outs, loc = self.gen(cls, make, ret=ret, rt=rt)
        ok, why = True, ''
        for o in outs:
            mal = [e for e in o['events'] if e['kind'] in ('malformed', 'nullderef', 'oob')]
            if mal:
                ok, why, loc = False, mal[0].get('what') or mal[0]['kind'], mal[0]['loc']
                break
            if o['kind'] != 'ret':
                ok, why = False, '%s: %s' % (o['kind'], o.get('why') or o.get('exc'))
                break
            st, v, ps, mod = o['ret']
            if want is None:
                if st == 'OK':
                    ok, why = False, 'generates code for an ill-typed node'
                continue
            if st != 'OK':
                ok, why = False, 'status %s: %s' % (st, v)
                break
            got = {}
            for conds, tr, t, p in ps:
                ch, cl = split_trace(tr)
                key = frozenset(conds)
                got[key] = (ch, t, cl)
            exp = {}
            for conds, ch, t in want:
                exp[conds] = (ch, t)
            if set(got) != set(exp):
                ok, why = False, 'branches on {%s}, expected {%s}' % (
                    '; '.join(sorted(showc(k) for k in got)), '; '.join(sorted(showc(k) for k in exp)))
                break
            for k in got:
                ch, t, cl = got[k]
                ech, et = exp[k]
                if ch != ech:
                    ok, why = False, 'on %s evaluates %s, expected %s' % (showc(k), list(ch), list(ech))
                elif et is not ANY and t != et:
                    ok, why = False, 'on %s yields %s, expected %s' % (showc(k), show(t), show(et))
                elif calls is not ANY and cl != (calls or ()):
                    if calls is None or cl not in calls:
                        ok, why = False, 'unexpected calls %s' % (cl,)
            if not ok:
                break
        self.ctx.ob(rule, row, ok, loc, why)
        return ok


ANY = object()


def showc(k):
    return ' and '.join(sorted('%s%s' % ('' if v else 'not ', show(c)) for c, v in k)) or 'always'
