"""Athena front end: evaluates the committed lexer, parser and tree builder on program text."""
import re
from . import alang
from .alang import Node
from .models import strval, rv
from .world import *
from .interp import CxxThrow

A = 'athena::'


class StdType:
    def __init__(self, q):
        self.s = self.q = q
        self.k = 'rec'

    def strip(self):
        return self


class Raw:
    """malloc'd memory: typed by the first use."""

    def __init__(self, n):
        self.n = n
        self.view = None


class Lang(World):
    def __init__(self, prog=None):
        World.__init__(self, prog=prog)
        self.real_text = True
        it = self.it
        it.max_loop = max(it.max_loop, 1 << 20)
        ov = it.override
        for fd in list(self.p.fdecls.values()):
            c = fd.cls.q if fd.cls is not None else None
            if c == A + 'Parser::value_type' or (c or '').startswith(A + 'Parser::value_type'):
                if fd.ctor and not (fd.copyctor or fd.movector):
                    ov[fd.key] = self.vt_ctor
                elif fd.dtor:
                    ov[fd.key] = lambda it, fd, this, a, e: None
                elif fd.n in ('as', 'emplace', 'build', 'move', 'copy', 'destroy', 'swap'):
                    ov[fd.key] = getattr(self, 'vt_' + fd.n)
        for q in (A + 'Parser::parse', A + 'ProgramAstBuilder::BuildExpression', A + 'ProgramAstBuilder::BuildPipeline'):
            self.p.fn(q)
        for n in ('Accept', 'GetReturnType', 'SetReturnType', 'GetExecNodeType', 'GetLocation'):
            ov.pop(NS + 'ExecNode::' + n, None)
        for fd in list(self.p.fdecls.values()):
            if fd.cls is not None and (fd.cls.q or '') == NS + 'Diagnostic':
                ov.pop(fd.key, None)
        for n in ('stoull', 'stoul', 'stoll', 'stol', 'stoi'):
            ov['std::' + n] = lambda it, fd, this, a, e, n=n: self.f_stoi(it, a, n)
        ov['std::stof'] = self.f_stof
        ov['std::stod'] = self.f_stod
        self.install_alloc()
        self.acc = {}

    # numeric conversions of the standard library
    def digits(self, it, a, rx, q):
        s = strval(it, a[0])
        m = re.match(r'\s*' + rx, s) if isinstance(s, str) else None
        if not isinstance(s, str):
            raise Broken('%s of unknown text' % q)
        if m is None:
            self.throw(it, 'std::invalid_argument')
        return m.group(0).strip()

    def throw(self, it, q):
        t = self.p.types.get(q) or StdType(q)
        it.event('throw', q=q)
        raise CxxThrow(Sym(('exception', q)), t, it.loc())

    def f_stoi(self, it, a, n):
        if len(a) > 2 and not (isinstance(rv(a[2]), int) and rv(a[2]) == 10):
            raise Broken('std::%s with a base' % n)
        v = int(self.digits(it, a, r'[+-]?[0-9]+', n))
        w, sg = {'stoull': (64, 0), 'stoul': (64, 0), 'stoll': (64, 1), 'stol': (64, 1), 'stoi': (32, 1)}[n]
        if sg and not (-(1 << (w - 1)) <= v < 1 << (w - 1)) or not sg and abs(v) >= 1 << w:
            self.throw(it, 'std::out_of_range')
        return v & ((1 << w) - 1) if not sg else v

    FLT = r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?'

    def f_stof(self, it, fd, this, a, e):
        v = alang.f32(self.digits(it, a, self.FLT, 'stof'))
        if v is None:
            self.throw(it, 'std::out_of_range')
        return v

    def f_stod(self, it, fd, this, a, e):
        v = alang.f64(self.digits(it, a, self.FLT, 'stod'))
        if v is None:
            self.throw(it, 'std::out_of_range')
        return v

    # the variant semantic value: one cell of whatever type was put there
    @staticmethod
    def slot(this):
        o = this.v
        if o.x is None:
            o.x = Cell(UNINIT, 'semantic value')
        return o.x

    def vt_ctor(self, it, fd, this, a, e):
        c = this if this is not None else Cell(None)
        if not isinstance(c.v, Obj):
            c.v = Obj(fd.cls)
        c.v.x = None
        if a:
            self.vt_put(it, c, fd.p[0].strip(), a)
        return c.v if this is None else None

    def vt_put(self, it, this, ty, a):
        c = self.slot(this)
        ty = it.unconst(ty)
        if a:
            v = it.load(a[0]) if isinstance(a[0], Cell) else a[0]
            c.v = it.copy(v)
            if isinstance(a[0], Cell):
                it.moved(a[0])
        else:
            c.v = it.zero_value(ty) if ty.k != 'rec' else it.default_value(ty)
        return c

    def vt_emplace(self, it, fd, this, a, e):
        return self.vt_put(it, this, fd.r.strip(), a)

    vt_build = vt_emplace

    def vt_as(self, it, fd, this, a, e):
        return self.slot(this)

    def vt_move(self, it, fd, this, a, e):
        src = self.slot(a[0])
        self.slot(this).v = src.v
        src.v = UNINIT
        return None

    vt_copy = vt_move

    def vt_destroy(self, it, fd, this, a, e):
        self.slot(this).v = UNINIT
        return None

    def vt_swap(self, it, fd, this, a, e):
        x, y = self.slot(this), self.slot(a[0])
        x.v, y.v = y.v, x.v
        return None

    # raw memory
    def install_alloc(self):
        it = self.it
        it.override['athena_alloc'] = lambda it, fd, this, a, e: Raw(a[0].v if isinstance(a[0], Cell) else a[0])
        it.override['athena_free'] = lambda it, fd, this, a, e: None
        old = it.convsym

        def conv(ck, v, t, e):
            if isinstance(v, Raw) and t.k == 'ptr':
                return self.view(v, t.e)
            return old(ck, v, t, e)
        it.convsym = conv
        oldset = self.m.f_memset
        self.m.f_memset = lambda it, fd, this, a, e: a[0] if isinstance(a[0], Raw) or isinstance(getattr(a[0], 'v', None), Raw) else oldset(it, fd, this, a, e)

    def view(self, r, t):
        it = self.it
        if t.k == 'void' or t.s == 'void':
            return r
        if r.view is None:
            t = it.unconst(t)
            if t.k == 'rec':
                r.view = Ptr(Cell(it.zero_value(t)))
            elif t.k == 'ptr':
                r.view = Ptr(None, [Cell(None) for _ in range(r.n // 8)], 0)
            else:
                r.view = Ptr(None, [Cell(UNINIT) for _ in range(r.n // ((t.w or 8) // 8))], 0)
        return r.view

    # evaluated trees as reference nodes, through the public accessors
    def get(self, o, name):
        q = o.cls.q + '::' + name
        f = self.acc.get(q)
        if f is None:
            c = o.cls.q
            fs = self.p.by_q.get(q) or self.p.by_q.get(NS + 'ExecNode::' + name)
            if not fs:
                raise Broken('accessor %s vanished' % q)
            f = self.acc[q] = fs[0]
        r = self.it.run_fn(f, Cell(o), [])
        return r.v if isinstance(r, Cell) else r

    @staticmethod
    def target(u):
        if isinstance(u, UPtr):
            u = u.p
        if isinstance(u, Ptr):
            u = u.target().v
        return u

    def span_of(self, o):
        l = self.get(o, 'GetLocation')
        v = [l.f[n].v for n in ('begin_line', 'begin_col', 'end_line', 'end_col')]
        if v == [0, 0, 0, 0] or any(not isinstance(x, int) for x in v):
            return None
        return ((v[0], v[1]), (v[2], v[3]))

    def scalar(self, v):
        """(element type, value)"""
        return LETTER.get(v.ty.s, 'STRING'), v.c.v

    def tree(self, u):
        o = self.target(u)
        if o is None:
            return Node('null')
        if not isinstance(o, Obj):
            return Node('?', (repr(o),))
        k = o.cls.q.split('::')[-1]
        sp = self.span_of(o)
        kids = lambda: [self.tree(c.v) for c in self.get(o, 'GetArgs').c]
        if k == 'ConstantValueNode':
            t, v = self.scalar(self.get(o, 'GetVal'))
            return Node('Const', (t, v), (), sp)
        if k == 'ConstantListValueNode':
            v = self.get(o, 'GetValList')
            et = v.ty.s[v.ty.s.index('<') + 1:].split(',')[0].strip().rstrip('>').strip()
            return Node('ConstList', (LETTER.get(et, 'STRING'), tuple(c.v for c in v.c.v.c)), (), sp)
        if k == 'UnaryOPNode':
            return Node('Unary', (self.uop['vals'].get(self.get(o, 'GetOp')),), [self.tree(self.get(o, 'GetChild'))], sp)
        if k == 'BinaryOPNode':
            return Node('Binary', (self.bop['vals'].get(self.get(o, 'GetOp')),), [self.tree(self.get(o, 'GetLeft')), self.tree(self.get(o, 'GetRight'))], sp)
        if k == 'FunctionNode':
            return Node('Function', (self.get(o, 'GetFuncName'),), kids(), sp)
        if k == 'RefNode':
            return Node('Ref', (self.get(o, 'GetName'),), (), sp)
        if k == 'NoOPNode':
            vi = [(c.v.f['name'].v, bool(c.v.f['is_const'].v)) for c in self.get(o, 'GetVarInfos').c]
            return Node('NoOP', (bool(self.get(o, 'IsIsolated')),) + tuple(vi), kids(), sp)
        if k in ('IfNode', 'SwitchNode', 'IfBlockNode'):
            return Node(k[:-4], (), kids(), sp)
        if k in ('EntryArgumentNode', 'ExecContextNode', 'OutputNode'):
            return Node(k[:-4], (), (), sp)
        return Node(k, (), (), sp)

    def build(self, src, mode):
        """('ok', tree) or ('reject', code) or ('bad', what) of a program text, by evaluating the front end."""
        return self.build_after([], src, mode)

    def build_after(self, before, src, mode):
        def thunk():
            b = Cell(self.new(A + 'ProgramAstBuilder'))
            for s0, m0 in before:
                self.call(A + 'ProgramAstBuilder::Build' + ('Expression' if m0 == 'E' else 'Pipeline'), b, Cell(s0), Ptr(Cell(UPtr(None))))
            res = Cell(UPtr(None))
            st = self.call(A + 'ProgramAstBuilder::Build' + ('Expression' if mode == 'E' else 'Pipeline'), b, Cell(src), Ptr(res))
            s = self.status(st)
            return ('ok', self.tree(res.v)) if s == 'OK' else ('reject', s, self.message(st))
        rs = self.it.explore(thunk)
        if len(rs) != 1:
            return ('bad', '%d outcomes' % len(rs))
        r = rs[0]
        bad = [e for e in r['events'] if e['kind'] in ('oob', 'nullderef', 'malformed')]
        if r['kind'] == 'throw':
            return ('bad', 'exception escapes')
        if r['kind'] != 'ret' or bad:
            return ('bad', '%s %s' % (r.get('why'), bad[:1]))
        return r['ret']

    def validate(self, src, mode):
        """Front end, then a fresh Validator over the tree."""
        def thunk():
            b = Cell(self.new(A + 'ProgramAstBuilder'))
            res = Cell(UPtr(None))
            st = self.call(A + 'ProgramAstBuilder::Build' + ('Expression' if mode == 'E' else 'Pipeline'), b, Cell(src), Ptr(res))
            if self.status(st) != 'OK':
                return ('front', self.status(st), self.message(st))
            v = Cell(self.new('Validator', Cell(self.up(Obj(self.p.types[NS + 'FunctionRegistry'])))))
            st = self.call(NS + 'Validator::Validate', v, Ptr(None) if res.v.p is None else res.v.p)
            s = self.status(st)
            return ('ok', '', '') if s == 'OK' else ('reject', s, self.message(st))
        self.it.override[NS + 'FunctionRegistry::GetFuncBySign'] = lambda it, fd, this, a, e: self.fail('RuntimeError')
        rs = self.it.explore(thunk)
        if len(rs) != 1 or rs[0]['kind'] != 'ret':
            return ('bad', '%s' % [r.get('why') for r in rs])
        return rs[0]['ret']

    def render(self, level, msg, src, span, notes, hints):
        def thunk():
            lt = self.p.types[NS + 'SourceLocation']
            loc = self.it.zero_value(lt)
            for n, v in zip(('source_code', 'begin_line', 'begin_col', 'end_line', 'end_col'), (src,) + span[0] + span[1]):
                loc.f[n].v = v
            e = self.p.enum(NS + 'Diagnostic::Level')['names']
            d = Cell(self.new('Diagnostic', e['kError' if level == 'error' else 'kWarning'], msg, loc))
            for n in notes:
                self.call(NS + 'Diagnostic::WithNote', d, n)
            for h in hints:
                self.call(NS + 'Diagnostic::WithHint', d, h)
            r = self.call(NS + 'Diagnostic::Render', d)
            return r.v if isinstance(r, Cell) else r
        rs = self.it.explore(thunk)
        if len(rs) != 1 or rs[0]['kind'] != 'ret':
            return 'bad %s' % [(r['kind'], r.get('why')) for r in rs]
        return rs[0]['ret']
