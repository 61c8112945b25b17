"""Vocabulary shared by the abstract-evaluation checks: value types, operators, nodes, statuses."""
from .interp import *
from .models import Models
from .prog import Broken, Program

NS = 'jitfusion::'
INTS = ['U8', 'U16', 'U32', 'U64', 'I8', 'I16', 'I32', 'I64']
NUMS = INTS + ['F32', 'F64']
LISTS = ['U8List', 'U16List', 'U32List', 'U64List', 'I8List', 'I16List', 'I32List', 'I64List', 'F32List', 'F64List',
         'StringList']
VALUES = NUMS + ['String'] + LISTS + ['Ptr']
ALLT = ['Void'] + VALUES
BITS = {'8': 8, '16': 16, '32': 32, '64': 64}
LETTER = {'signed char': 'I8', 'char': 'I8', 'short': 'I16', 'int': 'I32', 'long': 'I64', 'long long': 'I64',
          'unsigned char': 'U8', 'unsigned short': 'U16', 'unsigned int': 'U32', 'unsigned long': 'U64',
          'unsigned long long': 'U64', 'float': 'F32', 'double': 'F64'}


def width(t):
    return int(t[1:])


def is_int(t):
    return t in INTS


def is_num(t):
    return t in NUMS


def is_list(t):
    return t in LISTS


def elem(t):
    return t[:-4]


PROMO = ['I8', 'U8', 'I16', 'U16', 'I32', 'U32', 'I64', 'U64', 'F32', 'F64']


class Violation:
    def __init__(self, rule, loc, what, **kw):
        self.rule = rule
        self.loc = loc
        self.what = what
        self.kw = kw

    def key(self):
        return '%s|%s' % (self.rule, self.what)

    def __str__(self):
        return '%s:%s: [%s] %s' % (self.loc[0], self.loc[1], self.rule, self.what)


class Stub:
    """A child expression of which only the type (and node kind) is known."""
    n = 0

    def __init__(self, name, ty, kind='FunctionNode'):
        self.name = name
        self.ty = ty
        self.kind = kind

    def __repr__(self):
        return '<%s:%s>' % (self.name, self.ty)


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog


class World:
    def __init__(self, extra=(), prog=None):
        self.p = prog or program()
        self.m = Models(self.p, extra)
        self.it = Interp(self.p, self.m)
        self.vt = self.p.enum(NS + 'ValueType')
        self.bop = self.p.enum(NS + 'BinaryOPType')
        self.uop = self.p.enum(NS + 'UnaryOPType')
        self.nt = self.p.enum(NS + 'ExecNodeType')
        self.on_accept = None
        self.real_text = False
        self.install()

    # enums -------------------------------------------------------------
    def T(self, name):
        n = 'k' + name
        if n not in self.vt['names']:
            raise Broken('ValueType::%s vanished' % n)
        return self.vt['names'][n]

    def tname(self, v):
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, int) and v in self.vt['vals']:
            return self.vt['vals'][v][1:]
        return repr(v)

    # overrides ----------------------------------------------------------
    def install(self):
        ov = self.it.override
        for fs in list(self.p.fdecls.values()):
            if fs.cls is None:
                continue
            c = fs.cls.q or ''
            if c == NS + 'Status' and fs.ctor and fs.p and not (fs.copyctor or fs.movector):
                ov[fs.key] = self.status_ctor
            if c == NS + 'Diagnostic' and fs.key in self.p.funcs:
                ov[fs.key] = self.diag
        ov[NS + 'ExecNode::Accept'] = self.accept
        ov[NS + 'ExecNode::ToStringImpl'] = self.stub_text
        ov[NS + 'ExecNode::GetReturnType'] = self.get_rt
        ov[NS + 'ExecNode::SetReturnType'] = self.set_rt
        ov[NS + 'ExecNode::GetExecNodeType'] = self.get_nt
        ov[NS + 'ExecNode::GetLocation'] = self.get_loc
        for q in (NS + 'TypeHelper::TypeToString', NS + 'TypeHelper::BinaryOPTypeToString', NS + 'TypeHelper::UnaryOPTypeToString'):
            if q not in self.p.by_q:
                raise Broken('anchor %s vanished' % q)
            ov[q] = self.to_text
        self.it.models.lazy = getattr(self.it.models, 'lazy', {})

    def to_text(self, it, fd, this, a, e):
        v = a[0].v if isinstance(a[0], Cell) else a[0]
        if self.real_text and isinstance(v, int):
            return NotImplemented
        return Sym(('text', fd.n, key_of(v)), fd.r)

    def status_ctor(self, it, fd, this, a, e):
        code = a[0].v if isinstance(a[0], Cell) else a[0]
        o = this.v if this is not None else Obj(fd.cls)
        st = Obj(self.p.types.get(NS + 'Status::State') or fd.cls)
        st.f['code_'] = Cell(code)
        parts = [x.v if isinstance(x, Cell) else x for x in a[1:]]
        st.f['msg_'] = Cell(''.join(x if isinstance(x, str) else '...' for x in parts) or '...')
        rec = self.p.rec(fd.cls)
        o.f[rec.fields[0].name] = Cell(UPtr(Ptr(Cell(st))))
        return o if this is None else None

    def diag(self, it, fd, this, a, e):
        if fd.ctor:
            return Obj(fd.cls) if this is None else None
        if fd.dtor:
            return None
        if fd.r is not None and fd.r.k == 'ref':
            return this
        if fd.r is not None and fd.r.s == 'void':
            return None
        return Sym(('diag', fd.n), fd.r)

    def status(self, v):
        """'OK' or the code name of a Status value."""
        if isinstance(v, Cell):
            v = v.v
        if not isinstance(v, Obj) or v.cls.q != NS + 'Status':
            raise Broken('not a Status: %r' % (v,))
        for c in v.f.values():
            p = c.v
            if isinstance(p, UPtr):
                if p.p is None:
                    return 'OK'
                st = p.p.target().v
                code = st.f['code_'].v
                en = self.p.enum(NS + 'Status::StatusCode')
                return en['vals'].get(code, '?')[1:].replace('Ok', 'OK')
        raise Broken('Status without state')

    def message(self, v):
        v = v.v if isinstance(v, Cell) else v
        for c in v.f.values():
            if isinstance(c.v, UPtr) and c.v.p is not None:
                return c.v.p.target().v.f['msg_'].v
        return ''

    def ok(self):
        return Obj(self.p.types[NS + 'Status'], {self.p.rec(self.p.types[NS + 'Status']).fields[0].name: Cell(UPtr(None))})

    def fail(self, code='RuntimeError'):
        en = self.p.enum(NS + 'Status::StatusCode')
        o = self.ok()
        st = Obj(self.p.types.get(NS + 'Status::State') or o.cls)
        st.f['code_'] = Cell(en['names']['k' + code])
        st.f['msg_'] = Cell('stub')
        o.f[self.p.rec(o.cls).fields[0].name] = Cell(UPtr(Ptr(Cell(st))))
        return o

    # child stubs ---------------------------------------------------------
    def stub_of(self, this):
        v = this.v if isinstance(this, Cell) else this
        if isinstance(v, Ptr):
            v = v.target().v
        return v.x if isinstance(v, Obj) and isinstance(v.x, Stub) else None

    def accept(self, it, fd, this, a, e):
        s = self.stub_of(this)
        if s is None:
            return NotImplemented
        if self.on_accept is None:
            it.event('accept', stub=s)
            return self.ok()
        return self.on_accept(it, s, this, a)

    def stub_text(self, it, fd, this, a, e):
        s = self.stub_of(this)
        if s is None:
            return NotImplemented
        from .models import strval
        p = strval(it, a[0])
        return (p if isinstance(p, str) else '') + '|--%s\n' % s.name

    def get_rt(self, it, fd, this, a, e):
        s = self.stub_of(this)
        return NotImplemented if s is None else self.T(s.ty)

    def set_rt(self, it, fd, this, a, e):
        s = self.stub_of(this)
        if s is None:
            return NotImplemented
        it.event('set_child_type', stub=s)
        return None

    def get_nt(self, it, fd, this, a, e):
        s = self.stub_of(this)
        if s is None:
            return NotImplemented
        n = 'k' + s.kind
        if n not in self.nt['names']:
            raise Broken('ExecNodeType::%s vanished' % n)
        return self.nt['names'][n]

    def get_loc(self, it, fd, this, a, e):
        s = self.stub_of(this)
        return NotImplemented if s is None else Cell(Sym(('loc', s.name), None))

    def stub(self, name, ty, kind='FunctionNode'):
        o = Obj(self.p.types[NS + 'ExecNode'])
        o.x = Stub(name, ty, kind)
        return o

    def up(self, o):
        """unique_ptr to a fresh object."""
        return UPtr(Ptr(Cell(o)))

    def new(self, cls, *args, pred=None):
        """Construct repo class through its own constructor."""
        t = self.p.types.get(NS + cls) or self.p.types.get(cls)
        if t is None:
            raise Broken('class %s vanished' % cls)
        short = (t.q or t.s).split('::')[-1].split('<')[0]
        cands = [d for d in self.p.fdecls.values() if d.ctor and d.cls is not None and d.cls.s == t.s and
                 not d.copyctor and not d.movector and not d.deleted and d.p is not None and len(d.p) == len(args)]
        if pred:
            cands = [d for d in cands if pred(d)]
        if len(cands) != 1:
            raise Broken('constructor of %s with %d arguments: %d candidates' % (cls, len(args), len(cands)))
        return self.it.construct(t, cands[0], list(args))

    def vec(self, items):
        return Vec([Cell(x) for x in items])

    def call(self, q, this, *args, pred=None):
        f = self.p.fn(q, pred=pred)
        return self.it.call_fn(f.decl, this, list(args))

    def visit(self, visitor_cls, visitor_cell, node_cls, node_obj):
        q = NS + visitor_cls + '::Visit'
        fs = [f for f in self.p.by_q.get(q, []) if f.decl.p[0].strip().q == NS + node_cls]
        if len(fs) != 1:
            raise Broken('anchor %s(%s): %d definitions' % (q, node_cls, len(fs)))
        return self.it.call_fn(fs[0].decl, visitor_cell, [Cell(node_obj)]), fs[0]

    def node_type(self, o):
        """Return type recorded on a real node."""
        f = self.p.fn(NS + 'ExecNode::GetReturnType')
        return self.tname(self.it.run_fn(f, Cell(o), []))
