"""Abstract interpreter over the exported typed AST.

Domain: constants, heap cells with strong updates, records, models of the std
containers, and opaque terms for everything unknown.  A branch on an opaque
term partitions the trace: the interpreter explores each outcome (the same
term always has the same outcome on one partition).  Loops over opaque
conditions are unrolled up to `max_iter` and then left.
No source code of /repo is executed and no solver is involved.
"""
import os
from .prog import Broken


class Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = Uninit()


class Cell:
    __slots__ = ('v', 'tag', 'ro')

    def __init__(self, v=UNINIT, tag=None):
        self.v = v
        self.tag = tag
        self.ro = False

    def __repr__(self):
        return 'Cell(%r)' % (self.v,)


class TextCell(Cell):
    """The character buffer of a string: what c_str() and data() point to."""
    __slots__ = ()


class Sym:
    """Opaque value: a hashable term plus lazily created fields."""
    __slots__ = ('t', 'ty', 'fields')

    def __init__(self, t, ty=None):
        self.t = t
        self.ty = ty
        self.fields = {}

    def __repr__(self):
        return 'Sym%s' % (self.t,)


OPQ = []
OPQI = {}


def charof(v):
    """One character of a modelled byte string: a byte value or an opaque byte."""
    if isinstance(v, int):
        return chr(v & 255)
    t = v.t if isinstance(v, Sym) else v
    i = OPQI.get(t)
    if i is None:
        i = OPQI[t] = len(OPQ)
        OPQ.append(v if isinstance(v, Sym) else Sym(t))
    return chr(0xF0000 + i)


def charval(c):
    """Value of a `char` holding the given character (plain char is signed)."""
    o = ord(c)
    if o >= 0xF0000:
        return OPQ[o - 0xF0000]
    return o - 256 if 128 <= o < 256 else o


def isopaque(s):
    return any(ord(c) >= 0xF0000 for c in s)


class Ptr:
    """Pointer to a cell, or into an array (list of cells)."""
    __slots__ = ('cell', 'arr', 'i')

    def __init__(self, cell=None, arr=None, i=None):
        self.cell = cell
        self.arr = arr
        self.i = i

    def target(self):
        if self.arr is not None:
            if not isinstance(self.i, int) or not (0 <= self.i < len(self.arr)):
                raise OutOfRange('pointer index %r of %d' % (self.i, len(self.arr)))
            return self.arr[self.i]
        return self.cell

    def __repr__(self):
        return 'Ptr(%s)' % (self.cell if self.arr is None else '%d/%d' % (self.i, len(self.arr)))


class OutOfRange(Exception):
    pass


class Obj:
    """Record value."""
    _n = 0
    __slots__ = ('cls', 'f', 'id', 'x')

    def __init__(self, cls, f=None):
        self.cls = cls
        self.f = f if f is not None else {}
        Obj._n += 1
        self.id = Obj._n
        self.x = None

    def __repr__(self):
        return '<%s %s>' % (self.cls.s if self.cls else '?', {k: v.v for k, v in self.f.items()})


class Vec:
    __slots__ = ('c', 'id')

    def __init__(self, c=None):
        self.c = c if c is not None else []

    def __repr__(self):
        return 'Vec%r' % ([x.v for x in self.c],)


class Map:
    """map/set: key -> Cell(pair or key); keys hashed by hkey()."""
    __slots__ = ('d', 'k', 'n', 'isset', 'hb', 'bk')

    def __init__(self):
        self.isset = False
        self.n = None
        self.hb = None
        self.bk = {}
        self.d = {}
        self.k = {}

    def __repr__(self):
        return 'Map%r' % ({k: v.v for k, v in self.d.items()},)


class Opt:
    __slots__ = ('c',)

    def __init__(self, c=None):
        self.c = c

    def __repr__(self):
        return 'Opt(%r)' % (self.c,)


class Variant:
    __slots__ = ('ty', 'i', 'c', 'alts')

    def __init__(self, alts, i, c):
        self.alts = alts
        self.i = i
        self.ty = alts[i] if i is not None and i >= 0 else None
        self.c = c

    def __repr__(self):
        return 'Variant(%s,%r)' % (self.ty.s if self.ty else None, self.c)


class UPtr:
    __slots__ = ('p', 'kind')

    def __init__(self, p=None):
        self.p = p

    def __repr__(self):
        return 'UPtr(%r)' % (self.p,)


class Closure:
    __slots__ = ('e', 'env', 'this', 'tu', 'rec')

    def __init__(self, e, env, this, tu):
        self.e = e
        self.env = env
        self.this = this
        self.tu = tu

    def __repr__(self):
        return 'Closure'


class FnRef:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return 'FnRef(%s)' % self.f.q


class Iter:
    """Iterator into a vector (kind 'v'), map ('m') or reverse vector ('r')."""
    __slots__ = ('kind', 'c', 'i', 'end')

    def __init__(self, kind, c, i):
        self.kind = kind
        self.c = c
        self.i = i

    def __repr__(self):
        return 'Iter(%s,%r)' % (self.kind, self.i)


class PyFn:
    """A callable supplied by an analysis."""
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name='py'):
        self.fn = fn
        self.name = name


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Goto(Exception):
    def __init__(self, name):
        self.name = name


class CxxThrow(Exception):
    def __init__(self, v, ty, loc):
        self.v = v
        self.ty = ty
        self.loc = loc


class Abort(Exception):
    """Path ends here (noreturn call, infeasible choice, truncated loop)."""
    def __init__(self, why):
        self.why = why


class Frame:
    __slots__ = ('fn', 'env', 'this', 'tu', 'loc')

    def __init__(self, fn, env, this, tu):
        self.fn = fn
        self.env = env
        self.this = this
        self.tu = tu


def wrap(v, t):
    if isinstance(v, bool):
        v = int(v)
    if not isinstance(v, int) or t is None:
        return v
    if t.k == 'bool':
        return 1 if v else 0
    if t.k in ('int', 'enum') and t.w:
        m = 1 << t.w
        v &= m - 1
        if t.sg and v >> (t.w - 1):
            v -= m
    return v


def key_of(v):
    """Hashable identity of a value, for terms."""
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, (int, float, str)) or v is None:
        return v
    if isinstance(v, Cell):
        return ('cell', id(v)) if not isinstance(v.v, (Sym, int, float, str)) else key_of(v.v)
    if isinstance(v, Ptr):
        return ('ptr', id(v.cell)) if v.arr is None else ('ptr', id(v.arr), v.i)
    if isinstance(v, UPtr):
        return key_of(v.p)
    if hasattr(v, 'term'):
        return v.term()
    if isinstance(v, Vec):
        return ('vec',) + tuple(key_of(c.v) for c in v.c)
    if isinstance(v, Obj):
        return ('obj', v.id)
    if isinstance(v, FnRef):
        return ('fn', v.f.key)
    return ('id', id(v))


def hkey(v):
    """Hash key of a container key (by value)."""
    if isinstance(v, Cell):
        v = v.v
    if isinstance(v, (int, float, str)):
        return v
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, Vec):
        return ('vec',) + tuple(hkey(c.v) for c in v.c)
    if isinstance(v, Variant):
        return ('var', v.i, hkey(v.c))
    if isinstance(v, Obj):
        return ('obj', v.cls.s) + tuple((k, hkey(c.v)) for k, c in sorted(v.f.items()))
    return key_of(v)


class Interp:
    def __init__(self, prog, models, max_iter=3, max_paths=4000, max_depth=120):
        self.p = prog
        self.models = models
        self.max_loop = 100000
        self.max_iter = max_iter
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.override = {}      # qualified name or key -> fn(interp, call)
        self.events = []
        self.frames = []
        self.visited_funcs = set()
        self.hang_event = False
        self.paths_run = 0
        self.permissive = False
        self.kcmp = None
        self.on_unmodelled = None
        self.soft_globals = {}
        self.ncalls = 0
        self.called_models = set()

    # ---- path exploration ----
    def explore(self, thunk, max_paths=None):
        """Run thunk on every trace partition; yields (result|exception) records."""
        out = []
        prefix = []
        n = 0
        limit = max_paths or self.max_paths
        while True:
            n += 1
            if n > limit:
                raise Broken('more than %d trace partitions' % limit)
            self._prefix = prefix
            self._trace = []
            self._memo = {}
            self.events = []
            self.frames = []
            self.globals_env = {}
            self.path_state = {}
            rec = {'events': self.events}
            try:
                rec['ret'] = thunk()
                rec['kind'] = 'ret'
            except CxxThrow as t:
                rec['kind'] = 'throw'
                rec['exc'] = t
            except Abort as a:
                rec['kind'] = 'abort'
                rec['why'] = a.why
            except OutOfRange as x:
                self.event('oob', what=str(x))
                rec['kind'] = 'abort'
                rec['why'] = 'out of range access: %s' % x
            rec['conds'] = dict(self._memo)
            rec['trace'] = list(self._trace)
            out.append(rec)
            self.paths_run += 1
            # next
            tr = self._trace
            while tr and tr[-1][0] + 1 >= tr[-1][1]:
                tr.pop()
            if not tr:
                return out
            tr[-1] = (tr[-1][0] + 1, tr[-1][1], tr[-1][2])
            prefix = tr

    def choose(self, n, what=None):
        i = len(self._trace)
        if i < len(self._prefix):
            c = self._prefix[i][0]
        else:
            c = 0
        self._trace.append((c, n, what))
        return c

    def decide(self, v):
        """Truth value of v; partitions the trace when opaque."""
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, (bool, int, float)):
            return bool(v)
        if v is None:
            return False
        if isinstance(v, (Ptr, FnRef, Closure)):
            return True
        if isinstance(v, UPtr):
            return self.decide(v.p)
        if isinstance(v, Opt):
            return v.c is not None
        if isinstance(v, Sym):
            t, neg = self.canon(v.t)
            if isinstance(t, bool):
                return t != neg
            if t in self._memo:
                return self._memo[t] != neg
            k = self.known(t)
            if k is None:
                k = self.choose(2, t) == 0
            self._memo[t] = k
            return k != neg
        if hasattr(v, 'handle'):
            return True
        if hasattr(v, 'truth'):
            return v.truth(self)
        if isinstance(v, str):
            return True
        raise Broken('cannot decide %r at %s' % (v, self.where()))

    def known(self, t):
        return None

    def canon(self, t):
        neg = False
        while isinstance(t, tuple) and t:
            if t[0] == '!':
                t = t[1]
                neg = not neg
            elif t[0] == 'tobool':
                t = t[1]
            elif t[0] == '!=' and len(t) == 3:
                t = ('==',) + tuple(sorted(t[1:], key=repr))
                neg = not neg
            elif t[0] == '==' and len(t) == 3:
                s = ('==',) + tuple(sorted(t[1:], key=repr))
                if s == t:
                    break
                t = s
            elif t[0] == '>' and len(t) == 3:
                t = ('<', t[2], t[1])
            elif t[0] == '>=' and len(t) == 3:
                t = ('<', t[1], t[2])
                neg = not neg
            elif t[0] == '<=' and len(t) == 3:
                t = ('<', t[2], t[1])
                neg = not neg
            else:
                break
        if isinstance(t, tuple) and t and t[0] == '==' and len(t) == 3:
            a, b = t[1], t[2]
            for x, y in ((a, b), (b, a)):
                if x in (0, None, False) and isinstance(y, tuple):
                    # comparison with zero/null: truthiness of y
                    u, n2 = self.canon(y)
                    return u, (not neg) != n2
            if a == b:
                return True, neg
        return t, neg

    def where(self):
        for fr in reversed(self.frames):
            l = getattr(fr, 'loc', None)
            if l and not l[0].startswith('/'):
                return '%s:%d' % l
        return '?'

    def loc(self):
        for fr in reversed(self.frames):
            l = getattr(fr, 'loc', None)
            if l and not l[0].startswith('/'):
                return l
        return ('?', 0)

    def textcell(self, c, s):
        """The character buffer of the string held by cell c (stable while its text is unchanged)."""
        d = self.path_state.setdefault('textcells', {})
        r = d.get(id(c))
        if r is None or r[1] != s:
            r = d[id(c)] = (c, s, TextCell(s))
        return r[2]

    def textarr(self, p):
        """Pointer to a text buffer as a pointer into its characters."""
        if isinstance(p, Ptr) and p.arr is None and p.cell is not None and isinstance(p.cell.v, str):
            d = self.path_state.setdefault('textarrs', {})
            r = d.get(id(p.cell))
            if r is None or r[1] != p.cell.v:
                r = d[id(p.cell)] = (p.cell, p.cell.v, [Cell(charval(x)) for x in p.cell.v] + [Cell(0)])
            return Ptr(None, r[2], 0)
        return p

    def event(self, kind, **kw):
        kw['kind'] = kind
        kw['loc'] = self.loc()
        self.events.append(kw)
        return kw

    # ---- functions ----
    def call_fn(self, fd, this, args, e=None):
        """Call fd with `this` cell and already evaluated args (Cell for glvalues)."""
        self.ncalls += 1
        ov = self.override.get(fd.key) or self.override.get(fd.q)
        if ov is not None:
            r = ov(self, fd, this, args, e)
            if r is not NotImplemented:
                return r
        fn = self.p.funcs.get(fd.key)
        if fn is not None and 'b' in fn.raw and not (fd.defaulted):
            return self.run_fn(fn, this, args)
        if fn is not None and fd.ctor and 'b' in fn.raw and not (fd.copyctor or fd.movector):
            return self.run_fn(fn, this, args)
        return self.call_lib(fd, this, args, e)

    def run_fn(self, fn, this, args):
        fn.link()
        if len(self.frames) > self.max_depth:
            raise Broken('call depth exceeded in %s' % fn.q)
        self.visited_funcs.add(fn.decl.key)
        env = {}
        for (pid, name, ty), a in zip(fn.params, args):
            env[pid] = self.bind(ty, a, name)
        fr = Frame(fn, env, this, fn.tu)
        fr.loc = (fn.file, fn.line)
        self.frames.append(fr)
        try:
            if fn.decl.ctor:
                self.run_inits(fn, this)
            if fn.body is not None:
                self.stmt(fn.body)
            return None
        except _Return as r:
            return r.v
        finally:
            self.frames.pop()

    def bind(self, ty, a, name=None):
        if ty is not None and ty.k == 'ref':
            if isinstance(a, Cell):
                return a
            return Cell(a, name)
        if isinstance(a, Cell):
            a = self.load(a)
        return Cell(self.copy(a), name)

    def run_inits(self, fn, this):
        rec = self.p.rec(fn.decl.cls)
        obj = this.v
        done = set()
        for i in fn.inits:
            if 'm' in i:
                self.init_field(rec, obj, i['m'], i['e'])
                done.add(i['m'])
            elif 'del' in i:
                v = self.ev(i['e'])
                v = v.v if isinstance(v, Cell) else v
                if isinstance(v, Obj):
                    obj.f.update(v.f)
                return
            elif 'b' in i:
                self.init_base(obj, i['b'], i['e'])
        # fields without initialiser
        self.default_fields(rec, obj, done)

    def init_base(self, obj, bt, e):
        if e['k'] == 'ctor':
            f = e['f']
            args = self.args(e['a'])
            fnb = self.p.funcs.get(f.key)
            if self.p.rec(bt) is not None:
                if (f.copyctor or f.movector) and (f.defaulted or fnb is None):
                    src = args[0].v if isinstance(args[0], Cell) else args[0]
                    for ff in self.all_fields(self.p.rec(bt)):
                        if ff.name in src.f:
                            obj.f[ff.name] = Cell(self.copy(src.f[ff.name].v))
                    return
                if fnb is not None and 'b' in fnb.raw:
                    self.run_fn(fnb, Cell(obj), args)
                self.default_fields(self.p.rec(bt), obj, set(obj.f))
                return
        elif self.p.rec(bt) is not None:
            v = self.ev(e)
            v = v.v if isinstance(v, Cell) else v
            if isinstance(v, Obj):
                for k, c in v.f.items():
                    obj.f[k] = c

    def all_fields(self, rec):
        out = []
        if rec is None:
            return out
        for b in rec.bases:
            out += self.all_fields(self.p.rec(b))
        return out + rec.fields

    def default_fields(self, rec, obj, done):
        if rec is None:
            return
        for b in rec.bases:
            self.default_fields(self.p.rec(b), obj, set(obj.f))
        for f in rec.fields:
            if f.name in done or f.name in obj.f:
                continue
            if f.init is not None:
                f.tu.link(f.init)
                self.init_field(rec, obj, f.name, f.init)
            else:
                obj.f[f.name] = Cell(self.default_value(f.type), f.name)

    def init_field(self, rec, obj, name, e):
        ty = None
        for f in rec.fields:
            if f.name == name:
                ty = f.type
        v = self.ev(e)
        if ty is not None and ty.k == 'ref':
            obj.f[name] = v if isinstance(v, Cell) else Cell(v)
        else:
            if isinstance(v, Cell):
                v = self.copy(self.load(v))
            obj.f[name] = Cell(v, name)

    def default_value(self, ty):
        """Default-initialised value of a type."""
        if ty is None:
            return UNINIT
        if ty.k == 'rec':
            r = self.models.default(self, ty)
            if r is not NotImplemented:
                return r
            rec = self.p.rec(ty)
            if rec is not None:
                o = Obj(self.unconst(ty))
                ctors = [f for f in self.p.by_q.get(rec.q + '::' + rec.q.split('::')[-1], [])
                         if f.decl.defctor and f.decl.cls is not None and f.decl.cls.s == self.unconst(ty).s]
                if ctors and 'b' in ctors[0].raw:
                    self.run_fn(ctors[0], Cell(o), [])
                else:
                    self.default_fields(rec, o, set())
                return o
            return Sym(('default', ty.s))
        if ty.k == 'arr':
            return Vec([Cell(self.default_value(ty.e)) for _ in range(min(ty.n, 4096))])
        return UNINIT

    def unconst(self, ty):
        if ty.s.startswith('const ') and ty.s[6:] in self.p.types:
            return self.p.types[ty.s[6:]]
        return ty

    def zero_value(self, ty):
        if ty.k in ('int', 'bool', 'enum'):
            return 0
        if ty.k == 'flt':
            return 0.0
        if ty.k == 'ptr':
            return None
        if ty.k == 'arr':
            return Vec([Cell(self.zero_value(ty.e)) for _ in range(min(ty.n, 4096))])
        if ty.k == 'rec':
            v = self.default_value(ty)
            if isinstance(v, Obj):
                for f in self.all_fields(self.p.rec(ty)):
                    if v.f.get(f.name) is not None and v.f[f.name].v is UNINIT:
                        v.f[f.name].v = self.zero_value(f.type)
            return v
        return None

    def copy(self, v):
        if isinstance(v, Obj):
            if v.x is not None and hasattr(v.x, 'handle'):
                return v
            o = Obj(v.cls)
            o.x = v.x
            rec = self.p.rec(v.cls)
            refs = {f.name for f in self.all_fields(rec) if f.type.k == 'ref'} if rec else set()
            for k, c in v.f.items():
                o.f[k] = c if k in refs else Cell(self.copy(c.v), c.tag)
            return o
        if isinstance(v, Vec):
            return Vec([Cell(self.copy(c.v)) for c in v.c])
        if isinstance(v, Map):
            m = Map()
            m.d = {k: Cell(self.copy(c.v)) for k, c in v.d.items()}
            m.k = dict(v.k)
            m.n = v.n
            m.isset = v.isset
            return m
        if isinstance(v, Opt):
            return Opt(None if v.c is None else Cell(self.copy(v.c.v)))
        if isinstance(v, Variant):
            return Variant(v.alts, v.i, None if v.c is None else Cell(self.copy(v.c.v)))
        if isinstance(v, UPtr):
            return UPtr(v.p)
        if isinstance(v, Iter):
            return Iter(v.kind, v.c, v.i)
        if hasattr(v, 'clone'):
            return v.clone()
        return v

    def assign(self, cell, v):
        """Copy-assign v into cell, keeping cell identity."""
        if isinstance(v, Cell):
            v = self.load(v)
        v = self.copy(v)
        if isinstance(cell.v, Obj) and isinstance(v, Obj):
            # keep field cells (references into the object stay valid)
            for k, c in v.f.items():
                if k in cell.v.f:
                    cell.v.f[k].v = c.v
                else:
                    cell.v.f[k] = c
            cell.v.x = v.x
            return
        cell.v = v

    def load(self, c):
        if not isinstance(c, Cell):
            return c
        if c.v is UNINIT:
            return Sym(('uninit', c.tag or id(c)))
        return c.v

    # ---- calls into the library ----
    def call_lib(self, fd, this, args, e):
        m = self.models.find(fd)
        if m is not None:
            self.called_models.add(fd.q)
            r = m(self, fd, this, args, e)
            if r is not NotImplemented:
                return r
        # defaulted special members of repo records
        if fd.cls is not None and (self.p.rec(fd.cls) is not None):
            if fd.ctor:
                if fd.copyctor or fd.movector:
                    src = args[0]
                    v = self.copy(self.load(src)) if isinstance(src, Cell) else src
                    if fd.movector and isinstance(src, Cell):
                        self.moved(src)
                    if isinstance(v, Obj) and isinstance(this.v, Obj):
                        this.v.f.update(v.f)
                        this.v.x = v.x
                    else:
                        this.v = v
                    return None
                if fd.defctor or not fd.p:
                    self.default_fields(self.p.rec(fd.cls), this.v, set(this.v.f))
                    return None
            if fd.copyassign or fd.moveassign:
                v = args[0]
                self.assign(this, v)
                if fd.moveassign and isinstance(v, Cell) and v is not this:
                    self.moved(v)
                return this
            if fd.dtor:
                return None
        fn = self.p.lib.get(fd.key)
        if fn is not None and 'b' in fn.raw and not fd.defaulted:
            return self.run_fn(fn, this, args)
        if self.on_unmodelled is not None:
            r = self.on_unmodelled(self, fd, this, args, e)
            if r is not NotImplemented:
                return r
        if self.permissive:
            self.event('unmodelled', q=fd.q)
            return self.opaque_call(fd, this, args)
        raise Broken('unmodelled call %s at %s' % (fd.q, self.where()))

    def opaque_call(self, fd, this, args):
        t = ('call', fd.q) + ((key_of(this),) if this is not None else ()) + tuple(key_of(a) for a in args)
        rt = fd.r
        s = Sym(t, rt)
        if rt is not None and rt.k == 'ref':
            return Cell(s)
        return s

    def moved(self, cell):
        v = cell.v
        if isinstance(v, UPtr):
            cell.v = UPtr(None)
        elif isinstance(v, Vec):
            cell.v = Vec([])
        elif isinstance(v, Map):
            cell.v = Map()
        elif isinstance(v, str):
            cell.v = ''
        elif isinstance(v, Variant):
            self.moved(v.c)
        elif isinstance(v, Obj):
            for c in v.f.values():
                self.moved(c)

    # ---- statements ----
    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        fr = self.frames[-1]
        fr.loc = s['l']
        if k == 'block':
            b = s['b']
            i = 0
            while True:
                try:
                    for x in (b[i:] if i else b):
                        self.stmt(x)
                    return
                except _Goto as g:
                    i = self.label_at(b, g.name)
                    if i is None:
                        raise
        elif k == 'expr':
            self.ev(s['e'])
        elif k == 'decl':
            for d in s['d']:
                self.decl(d)
        elif k == 'if':
            if 'init' in s:
                self.stmt(s['init'])
            if 'var' in s:
                self.decl(s['var'])
            if self.decide(self.rv(s['c'])):
                self.stmt(s['t'])
            elif 'f' in s:
                self.stmt(s['f'])
        elif k == 'return':
            if 'e' not in s:
                raise _Return(None)
            v = self.ev(s['e'])
            rt = fr.fn.decl.r if not isinstance(fr.fn, tuple) else fr.fn[1]
            if rt is not None and rt.k != 'ref' and isinstance(v, Cell):
                v = self.copy(self.load(v))
            raise _Return(v)
        elif k == 'for':
            if 'init' in s:
                self.stmt(s['init'])
            self.loop(lambda: True if 'c' not in s else self.decide_loop(s['c']), s['b'],
                      (lambda: self.ev(s['inc'])) if 'inc' in s else None)
        elif k == 'while':
            def c():
                if 'var' in s:
                    self.decl(s['var'])
                return self.decide_loop(s['c'])
            self.loop(c, s['b'], None)
        elif k == 'do':
            first = [True]

            def c():
                if first[0]:
                    first[0] = False
                    return True
                return self.decide_loop(s['c'])
            self.loop(c, s['b'], None)
        elif k == 'rangefor':
            self.rangefor(s)
        elif k == 'switch':
            self.switch(s)
        elif k == 'break':
            raise _Break()
        elif k == 'continue':
            raise _Continue()
        elif k == 'null':
            pass
        elif k in ('case', 'default', 'label'):
            self.stmt(s['b'])
        elif k == 'goto':
            raise _Goto(s['n'])
        elif k == 'try':
            try:
                self.stmt(s['b'])
            except CxxThrow as t:
                for h in s['h']:
                    if h.get('all') or self.catches(h['v']['t'], t.ty):
                        if 'v' in h:
                            self.frames[-1].env[h['v']['id']] = Cell(t.v)
                        self.stmt(h['b'])
                        return
                raise
        else:
            raise Broken('statement %s (%s) at %s' % (k, s.get('c'), self.where()))

    @staticmethod
    def label_at(b, name):
        for i, x in enumerate(b):
            while x is not None and x['k'] in ('case', 'default', 'label'):
                if x['k'] == 'label' and x['n'] == name:
                    return i
                x = x['b']
        return None

    def catches(self, ht, tt):
        a = ht.strip().s.replace('const ', '')
        if tt is None:
            return True
        b = tt.strip().s.replace('const ', '')
        if a == b or a == 'std::exception':
            return True
        sup = {'std::out_of_range': ['std::logic_error'], 'std::length_error': ['std::logic_error'],
               'std::invalid_argument': ['std::logic_error'], 'std::bad_variant_access': [], 'std::bad_alloc': []}
        return a in sup.get(b, ['std::runtime_error'])

    def decide_loop(self, c):
        v = self.rv(c)
        self._sym_loop = isinstance(v, Sym)
        return self.decide(v) if not isinstance(v, Sym) else self.decide_fresh(v)

    def decide_fresh(self, v):
        return self.decide(v)

    def loop(self, cond, body, inc):
        n = 0
        symn = 0
        while True:
            before = len(self._trace)
            if not cond():
                return
            if len(self._trace) > before:
                symn += 1
                if symn > self.max_iter:
                    raise Abort('loop bound')
            n += 1
            if n > self.max_loop:
                if self.hang_event and not symn:    # nothing undetermined had a part in it
                    self.event('hang', what='loop does not terminate')
                    raise Abort('loop does not terminate at %s' % self.where())
                raise Broken('loop does not terminate at %s' % self.where())
            try:
                self.stmt(body)
            except _Break:
                return
            except _Continue:
                pass
            if inc:
                inc()

    def rangefor(self, s):
        r = self.ev(s['r'])
        seq = self.models.iterate(self, r, s)
        v = s['v']
        for c in seq:
            fr = self.frames[-1]
            fr.loc = s['l']
            ty = v['t']
            if ty.k == 'ref':
                cell = c if isinstance(c, Cell) else Cell(c)
            else:
                cell = Cell(self.copy(self.load(c) if isinstance(c, Cell) else c))
            fr.env[v['id']] = cell
            if 'binds' in v:
                self.bindings(v, cell)
            try:
                self.stmt(s['b'])
            except _Break:
                return
            except _Continue:
                pass

    def bindings(self, v, cell):
        fr = self.frames[-1]
        o = self.load(cell)
        cells = self.models.decompose(self, o)
        for (bid, _), c in zip(v['binds'], cells):
            fr.env[bid] = c

    def switch(self, s):
        if 'init' in s:
            self.stmt(s['init'])
        if 'var' in s:
            self.decl(s['var'])
        v = self.rv(s['c'])
        body = s['b']
        items = body['b'] if body['k'] == 'block' else [body]
        # flatten: list of (labels, stmt)
        flat = []
        for it in items:
            labels = []
            x = it
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['b']
            flat.append((labels, x))
        start = None
        default = None
        if isinstance(v, Sym):
            # choose among the labels
            labs = []
            for i, (ls, _) in enumerate(flat):
                for l in ls:
                    labs.append((i, l))
            cases = [(i, l) for i, l in labs if l['k'] == 'case']
            dflt = [i for i, l in labs if l['k'] == 'default']
            for i, l in cases:
                cv = self.rv(l['v'])
                if self.decide(Sym(('==', v.t, key_of(cv)))):
                    start = i
                    break
            if start is None and dflt:
                start = dflt[0]
        else:
            for i, (ls, _) in enumerate(flat):
                for l in ls:
                    if l['k'] == 'default':
                        default = i
                    else:
                        lo = self.rv(l['v'])
                        hi = self.rv(l['hi']) if 'hi' in l else lo
                        if start is None and lo <= v <= hi:
                            start = i
            if start is None:
                start = default
        if start is None:
            return
        try:
            for _, x in flat[start:]:
                if x is not None:
                    self.stmt(x)
        except _Break:
            pass

    def decl(self, d):
        fr = self.frames[-1]
        ty = d['t']
        if d.get('static'):
            k = ('static', d['id'])
            if k in self.globals_env:
                fr.env[d['id']] = self.globals_env[k]
                return
        if 'init' in d and d['init'] is not None:
            v = self.ev(d['init'])
            if ty.k == 'ref':
                cell = v if isinstance(v, Cell) else Cell(v, d['n'])
            else:
                if isinstance(v, Cell):
                    v = self.copy(self.load(v))
                cell = Cell(v, d['n'])
                if ty.k == 'arr' and isinstance(v, str):
                    cell = Cell(v, d['n'])
        else:
            cell = Cell(self.default_value(ty), d['n'])
        fr.env[d['id']] = cell
        if d.get('static'):
            self.globals_env[('static', d['id'])] = cell
        if 'binds' in d:
            self.bindings(d, cell)

    # ---- expressions ----
    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, Cell):
            v = self.load(v)
        return v

    def args(self, l):
        return [self.ev(a) for a in l]

    def ev(self, e):
        if e is None:
            return None
        l = e.get('l')
        if l is not None and self.frames:
            self.frames[-1].loc = l
        return getattr(self, 'e_' + e['k'])(e)

    def e_int(self, e):
        v = e['v']
        return int(v) if isinstance(v, str) else v

    def e_flt(self, e):
        try:
            return float(e['v'])
        except ValueError:
            return Sym(('flt', e['v']))

    def e_str(self, e):
        return Cell(e.get('v', ''))

    def e_null(self, e):
        return None

    def e_zeroinit(self, e):
        return self.zero_value(e['t'])

    def e_tmp(self, e):
        v = self.ev(e['e'])
        return v if isinstance(v, Cell) else Cell(v, 'tmp')

    def e_ld(self, e):
        v = self.ev(e['e'])
        if isinstance(v, Cell):
            r = self.load(v)
            return self.copy(r) if isinstance(r, (Obj, Vec, Map)) else r
        return v

    def e_var(self, e):
        for fr in (self.frames[-1],):
            c = fr.env.get(e['id'])
            if c is not None:
                return c
        if 'glob' in e:
            return self.global_var(e['glob'], e)
        raise Broken('unbound variable %s at %s' % (e['n'], self.where()))

    def global_var(self, q, e=None):
        c = self.globals_env.get(q)
        if c is not None:
            return c
        gs = self.p.globals.get(q)
        if q in self.models.globals:
            c = Cell(self.models.globals[q])
        elif gs:
            # prefer one with an initialiser, from the current TU if internal
            cur = self.frames[-1].tu if self.frames else None
            cand = [g for g in gs if g.tu is cur and 'init' in g.raw] or [g for g in gs if 'init' in g.raw] or gs
            g = cand[0]
            if 'init' in g.raw and g.raw['init'] is not None:
                g.tu.link(g.raw['init'])
                fr = Frame(('glob', None), {}, None, g.tu)
                fr.loc = g.loc
                self.frames.append(fr)
                try:
                    v = self.ev(g.raw['init'])
                finally:
                    self.frames.pop()
                if isinstance(v, Cell):
                    v = self.copy(self.load(v))
                c = Cell(v, q)
            else:
                c = Cell(self.default_value(g.type), q)
        else:
            c = Cell(Sym(('global', q)), q)
        self.globals_env[q] = c
        return c

    def e_fref(self, e):
        return FnRef(e['f'])

    def e_this(self, e):
        return Ptr(self.frames[-1].this)

    def bytes_of(self, v):
        return v

    def deref(self, p):
        """Cell a pointer value designates."""
        if isinstance(p, Cell):
            p = self.load(p)
        if isinstance(p, Ptr):
            try:
                return p.target()
            except OutOfRange as x:
                self.event('oob', what=str(x))
                raise Abort('out of range access: %s at %s' % (x, self.where()))
        if isinstance(p, Sym):
            c = p.fields.get('*')
            if c is None:
                c = p.fields['*'] = Cell(Sym(('*', p.t)))
            return c
        if p is None:
            self.event('nullderef')
            raise Abort('null dereference at %s' % self.where())
        if isinstance(p, UPtr):
            return self.deref(p.p)
        if isinstance(p, FnRef):
            return p
        if isinstance(p, Iter):
            return self.models.iter_cell(self, p)
        if hasattr(p, 'deref'):
            return p.deref(self)
        if isinstance(p, str):
            return Cell(charval(p[0]) if p else 0)
        # handles (LLVM simulation objects) are pointers to themselves
        return Cell(p)

    def e_mem(self, e):
        o = self.ev(e['o'])
        if e.get('arrow'):
            c = self.deref(o)
        else:
            c = o
        v = c.v if isinstance(c, Cell) else c
        return self.field(v, e['n'], e)

    def field(self, v, n, e=None):
        if isinstance(v, Obj):
            f = v.f.get(n)
            if f is None:
                f = v.f[n] = Cell(UNINIT, n)
            return f
        if isinstance(v, Sym):
            f = v.fields.get(n)
            if f is None:
                f = v.fields[n] = Cell(Sym(('.', v.t, n), e['t'] if e else None), n)
            return f
        if hasattr(v, 'field'):
            return v.field(self, n)
        if v is UNINIT:
            return Cell(Sym(('uninit', n)), n)
        raise Broken('field %s of %r at %s' % (n, v, self.where()))

    def e_mref(self, e):
        return ('mref', e['f'], self.ev(e['o']))

    def e_call(self, e):
        if 'f' in e:
            f = e['f']
            fast = self.models.lazy.get(f.q)
            if fast is not None:
                return fast(self, e)
            a = self.args(e['a'])
            return self.call_fn(f, None, a, e)
        c = self.ev(e['callee'])
        a = self.args(e['a'])
        return self.call_value(c, a, e)

    def call_value(self, c, a, e=None, argtypes=None):
        if isinstance(c, Cell):
            c = self.load(c)
        if isinstance(c, Ptr):
            c = c.target().v
        if isinstance(c, FnRef):
            return self.call_fn(c.f, None, a, e)
        if isinstance(c, PyFn):
            return c.fn(self, a, e)
        if isinstance(c, Closure):
            return self.call_closure(c, a, argtypes)
        if isinstance(c, Obj):
            fd = self.pick_call_op(c, a, argtypes)
            return self.call_fn(fd, Cell(c), a, e)
        if isinstance(c, Sym):
            self.event('callsym', term=c.t, args=a)
            t = e['t'] if e else None
            if t is not None and t.k == 'void':
                return None
            return Sym(('apply', c.t, len(self.events)) + tuple(key_of(x) for x in a), t)
        if hasattr(c, 'call'):
            return c.call(self, a, e)
        if c is None:
            self.event('nullcall')
            raise Abort('call through null at %s' % self.where())
        raise Broken('call of %r at %s' % (c, self.where()))

    def type_matches(self, pt, at):
        p = pt.strip().s.replace('const ', '')
        a = at.strip().s.replace('const ', '')
        return p == a

    def pick_call_op(self, o, a, argtypes):
        rec = self.p.rec(o.cls)
        if rec is None:
            raise Broken('operator() of %s' % o.cls.s)
        c = [f.decl for f in self.p.by_q.get(rec.q + '::operator()', [])
             if f.decl.cls is not None and f.decl.cls.s == o.cls.s and len(f.decl.p) == len(a)]
        if argtypes is not None and len(c) > 1:
            c2 = [d for d in c if all(self.type_matches(p, t) for p, t in zip(d.p, argtypes))]
            if c2:
                # a non-template overload wins over a template specialisation
                c3 = [d for d in c2 if not d.ta] or c2
                return c3[0]
            raise Broken('no operator() of %s for %s' % (rec.q, [t.s for t in argtypes]))
        if not c:
            raise Broken('no operator() of %s' % rec.q)
        return c[0]

    def call_closure(self, c, a, argtypes=None, fd=None):
        ops = c.e['ops']
        if fd is None:
            cand = [d for d in ops if d.key in self.p.funcs and len(d.p) == len(a)]
            if len(cand) > 1 and argtypes is not None:
                c2 = [d for d in cand if all(self.type_matches(p, t) for p, t in zip(d.p, argtypes))]
                cand = c2 or cand
            if not cand:
                raise Broken('lambda body not found at %s' % self.where())
            fd = cand[0]
        fn = self.p.funcs.get(fd.key)
        if fn is None:
            raise Broken('lambda body missing')
        fn.link()
        self.visited_funcs.add(fd.key)
        env = dict(c.env)
        for (pid, name, ty), x in zip(fn.params, a):
            env[pid] = self.bind(ty, x, name)
        fr = Frame(fn, env, c.this, fn.tu)
        fr.loc = (fn.file, fn.line)
        self.frames.append(fr)
        try:
            self.stmt(fn.body)
            return None
        except _Return as r:
            return r.v
        finally:
            self.frames.pop()

    def e_lambda(self, e):
        fr = self.frames[-1]
        env = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = fr.this
                if not c.get('ref'):
                    this = Cell(self.copy(fr.this.v))
            elif 'init' in c:
                v = self.ev(c['init'])
                if c['ref']:
                    env[c['id']] = v if isinstance(v, Cell) else Cell(v)
                else:
                    env[c['id']] = Cell(self.copy(self.load(v)) if isinstance(v, Cell) else v)
            else:
                src = fr.env.get(c['id'])
                if src is None:
                    raise Broken('capture of unbound %s at %s' % (c['n'], self.where()))
                env[c['id']] = src if c['ref'] else Cell(self.copy(src.v))
        return Closure(e, env, this, fr.tu)

    def dyn_class(self, v):
        if isinstance(v, Obj):
            return v.cls
        return None

    def virtual(self, fd, cell):
        """Final overrider of fd for the dynamic type of the object."""
        v = cell.v if isinstance(cell, Cell) else cell
        cls = self.dyn_class(v)
        if cls is None:
            return fd
        return self.overrider(fd, cls) or fd

    def overrider(self, fd, cls):
        rec = self.p.rec(cls)
        if rec is None:
            return None
        for mid in rec.methods:
            m = rec.tu.fdecl(mid)
            if m.key == fd.key or self.overrides(m, fd):
                return m
        for b in rec.bases:
            r = self.overrider(fd, b)
            if r is not None:
                return r
        return None

    def overrides(self, m, fd):
        for o in m.over or []:
            if o.key == fd.key or self.overrides(o, fd):
                return True
        return False

    def e_mcall(self, e):
        if 'f' not in e:
            c = self.ev(e['callee'])
            a = self.args(e['a'])
            if isinstance(c, tuple) and c[0] == 'mref':
                return self.call_fn(c[1], c[2], a, e)
            raise Broken('member pointer call at %s' % self.where())
        f = e['f']
        o = self.ev(e['o'])
        if e.get('arrow'):
            this = self.deref(o)
        else:
            this = o if isinstance(o, Cell) else Cell(o, 'tmp')
        a = self.args(e['a'])
        if e.get('virt'):
            ov = self.override.get(f.key) or self.override.get(f.q)
            if ov is not None:
                r = ov(self, f, this, a, e)
                if r is not NotImplemented:
                    return r
            f = self.virtual(f, this)
        v = this.v if isinstance(this, Cell) else this
        if isinstance(v, Closure) and f.n == 'operator()':
            return self.call_closure(v, a, fd=f if f.key in self.p.funcs else None)
        return self.call_fn(f, this, a, e)

    def e_ctor(self, e):
        f = e['f']
        ty = self.unconst(e['t'])
        a = self.args(e['a'])
        return self.construct(ty, f, a, e)

    def construct(self, ty, f, a, e=None):
        if ty.k == 'arr':
            return Vec([Cell(self.construct(ty.e, f, a, e)) for _ in range(min(ty.n, 256))])
        ov = self.override.get(f.key) or self.override.get(f.q)
        if ov is not None:
            r = ov(self, f, None, a, e)
            if r is not NotImplemented:
                return r
        rec = self.p.rec(ty)
        if rec is None:
            if ty.lam is not None:
                v = a[0].v if isinstance(a[0], Cell) else a[0]
                return v
            r = self.models.construct(self, ty, f, a, e)
            if r is NotImplemented:
                if self.permissive:
                    return Sym(('ctor', ty.q or ty.s) + tuple(key_of(x) for x in a), ty)
                raise Broken('unmodelled constructor of %s(%s) from %s at %s' % (ty.s, [t.s for t in f.p or []], [str(x)[:60] for x in a], self.where()))
            return r
        if rec.q and '(lambda' in rec.q or rec.raw.get('lambda'):
            v = a[0].v if isinstance(a[0], Cell) else a[0]
            return v
        o = Obj(ty)
        c = Cell(o)
        if (f.copyctor or f.movector) and isinstance(a[0], Cell) and not isinstance(a[0].v, Obj):
            src = a[0].v
            v = self.copy(src)
            if f.movector:
                self.moved(a[0])
            return v
        if e is not None and e.get('zero'):
            for ff in self.all_fields(rec):
                pass
        self.call_fn(f, c, a, e)
        if e is not None and e.get('zero') and isinstance(c.v, Obj):
            for ff in self.all_fields(rec):
                if ff.name in c.v.f and c.v.f[ff.name].v is UNINIT:
                    c.v.f[ff.name].v = self.zero_value(ff.type)
        return c.v

    def e_ictor(self, e):
        return Obj(e['t'])

    def e_stdil(self, e):
        v = self.ev(e['e'])
        return v.v if isinstance(v, Cell) else v

    def e_il(self, e):
        ty = e['t']
        if ty.k == 'rec':
            rec = self.p.rec(ty)
            if rec is not None:
                o = Obj(self.unconst(ty))
                names = e.get('fn') or []
                for n, x in zip(names, e['a']):
                    if n is None:
                        continue
                    ft = [f for f in rec.fields if f.name == n]
                    if x is None:
                        continue
                    v = self.ev(x)
                    if ft and ft[0].type.k == 'ref':
                        o.f[n] = v if isinstance(v, Cell) else Cell(v)
                    else:
                        o.f[n] = Cell(self.copy(self.load(v)) if isinstance(v, Cell) else v, n)
                self.default_fields(rec, o, set(o.f))
                return o
            a = [self.ev(x) for x in e['a']]
            return self.models.aggregate(self, ty, a, e)
        if ty.k == 'arr':
            c = []
            for x in e['a']:
                v = self.ev(x)
                c.append(Cell(self.copy(self.load(v)) if isinstance(v, Cell) else v))
            while len(c) < (ty.n or 0) and len(c) < 4096:
                c.append(Cell(self.ev(e['fill']) if e.get('fill') else self.zero_value(ty.e)))
            return Vec(c)
        if len(e['a']) == 1:
            return self.ev(e['a'][0])
        if not e['a']:
            return self.zero_value(ty)
        raise Broken('init list of %s at %s' % (ty.s, self.where()))

    def lval(self, e):
        v = self.ev(e)
        if not isinstance(v, Cell):
            v = Cell(v)
        return v

    def e_un(self, e):
        op = e['op']
        if op == '&':
            sub = e['e']
            while sub['k'] == 'paren':
                sub = sub['e']
            if sub['k'] == 'idx':
                # keeps the array, and allows one past the end
                b, i = self.rv(sub['a']), self.rv(sub['i'])
                if isinstance(b, Vec):
                    b = Ptr(None, b.c, 0)
                if isinstance(b, Ptr) and b.arr is not None and isinstance(i, int):
                    j = b.i + i
                    if not (0 <= j < len(b.arr) and hasattr(b.arr[j].v, 'handle')):
                        return Ptr(None, b.arr, j)
                x = self.index(b, i)
            else:
                x = self.ev(sub)
            if isinstance(x, FnRef):
                return x
            if isinstance(x, Cell):
                et = e['e'].get('t')
                if hasattr(x.v, 'handle') and not (et is not None and et.strip().k == 'ptr'):
                    return x.v if getattr(x.v, 'handle', None) == 'self' else Ptr(x)
                arr = getattr(x, 'tag', None)
                if isinstance(arr, tuple) and arr and arr[0] == 'elem':
                    return Ptr(None, arr[1], arr[2])
                return Ptr(x)
            return x
        if op == '*':
            v = self.rv(e['e'])
            return self.deref(v)
        if op in ('++', '--'):
            c = self.lval(e['e'])
            old = self.bytes_of(self.load(c))
            if isinstance(old, int):
                new = wrap(old + (1 if op == '++' else -1), e['t'])
            elif isinstance(old, str) and e['t'].strip().k == 'ptr':
                # a string literal walked as a C string
                cells = self.textcell(c, old)
                old = self.textarr(Ptr(cells)) if isinstance(cells, Cell) else cells
                new = Ptr(None, old.arr, old.i + (1 if op == '++' else -1))
            elif isinstance(old, Ptr) and self.textarr(old).arr is not None:
                old = self.textarr(old)
                new = Ptr(None, old.arr, old.i + (1 if op == '++' else -1))
            elif isinstance(old, Sym):
                new = self.incsym(op, old, e)
            else:
                new = self.models.incdec(self, old, op)
            c.v = new
            return old if e.get('post') else c
        v = self.rv(e['e'])
        if isinstance(v, Sym):
            r = self.unsym(op, v, e)
            if r is not NotImplemented:
                return r
        if op == '!':
            if isinstance(v, Sym):
                return Sym(('!', v.t))
            return 0 if self.decide(v) else 1
        if isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, bool):
            if op == '-':
                return wrap(-v, e['t'])
            if op == '+':
                return v
            if op == '~':
                return wrap(~v, e['t'])
        if isinstance(v, Sym):
            return Sym(('u' + op, v.t), e['t'])
        raise Broken('unary %s of %r at %s' % (op, v, self.where()))

    def incsym(self, op, old, e):
        return Sym(('+' if op == '++' else '-', old.t, 1), old.ty)

    def unsym(self, op, v, e):
        return NotImplemented

    def convsym(self, ck, v, t, e):
        return NotImplemented

    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.rv(e['a'])
            if not self.decide(a):
                return 0
            return 1 if self.decide(self.rv(e['b'])) else 0
        if op == '||':
            a = self.rv(e['a'])
            if self.decide(a):
                return 1
            return 1 if self.decide(self.rv(e['b'])) else 0
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op == '=':
            v = self.ev(e['b'])
            c = self.lval(e['a'])
            self.assign(c, v)
            return c
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        return self.binop(op, a, b, e['t'], e)

    def binop(self, op, a, b, t, e=None):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return self.arith(op, a, b, t)
            except ZeroDivisionError:
                self.event('div0')
                raise Abort('division by zero')
        if op in ('+', '-', '<', '>', '<=', '>=') and (isinstance(a, Ptr) or isinstance(b, Ptr)):
            a, b = self.textarr(a), self.textarr(b)
        if op in ('==', '!='):
            r = self.equal(a, b)
            if r is not None:
                return int(r if op == '==' else not r)
        if isinstance(a, Ptr) and isinstance(b, int) and a.arr is not None and op in '+-':
            return Ptr(None, a.arr, a.i + (b if op == '+' else -b))
        if isinstance(b, Ptr) and isinstance(a, int) and b.arr is not None and op == '+':
            return Ptr(None, b.arr, b.i + a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-' and a.arr is b.arr and a.arr is not None:
            return a.i - b.i
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.arr is not None and a.arr is b.arr:
            return self.arith(op, a.i, b.i, t)
        if (a is None and isinstance(b, int) and b == 0 and op in ('+', '-')) or (b is None and isinstance(a, int) and a == 0 and op == '+'):
            return None
        if a is None and b is None and op == '-':
            return 0
        r = self.models.binop(self, op, a, b, t)
        if r is not NotImplemented:
            return r
        return Sym((op, key_of(a), key_of(b)), t)

    def equal(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, (Ptr, FnRef, Closure, str)):
                return False
            if isinstance(o, UPtr):
                return self.equal(o.p, None)
            if isinstance(o, Sym):
                return None
            if o == 0 and isinstance(o, int):
                return True
            return False
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            try:
                return a.target() is b.target()
            except OutOfRange:
                return a.arr is b.arr and a.i == b.i
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Sym) or isinstance(b, Sym):
            if key_of(a) == key_of(b):
                return True
            return None
        if isinstance(a, Iter) and isinstance(b, Iter):
            return a.c is b.c and a.i == b.i
        if isinstance(a, FnRef) and isinstance(b, FnRef):
            return a.f.key == b.f.key
        if type(a) == type(b) and hasattr(a, 'handle'):
            return a is b
        return None

    def arith(self, op, a, b, t):
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op == '/':
            if isinstance(a, float) or isinstance(b, float):
                r = a / b
            else:
                q = abs(a) // abs(b)
                r = q if (a >= 0) == (b >= 0) else -q
        elif op == '%':
            q = abs(a) % abs(b)
            r = q if a >= 0 else -q
        elif op == '<<':
            r = a << b
        elif op == '>>':
            r = a >> b
        elif op == '&':
            r = a & b
        elif op == '|':
            r = a | b
        elif op == '^':
            r = a ^ b
        elif op == '==':
            return int(a == b)
        elif op == '!=':
            return int(a != b)
        elif op == '<':
            return int(a < b)
        elif op == '<=':
            return int(a <= b)
        elif op == '>':
            return int(a > b)
        elif op == '>=':
            return int(a >= b)
        else:
            raise Broken('operator ' + op)
        return wrap(r, t)

    def e_casg(self, e):
        b = self.rv(e['b'])
        c = self.lval(e['a'])
        a = self.load(c)
        ct = e.get('ct') or e['t']
        op = e['op'][:-1]
        r = self.binop(op, a, b, ct if not isinstance(a, Ptr) else None, e)
        r = wrap(r, e['t']) if isinstance(r, int) else r
        c.v = r
        return c

    def e_cond(self, e):
        if self.decide(self.rv(e['c'])):
            return self.ev(e['a'])
        return self.ev(e['b'])

    def e_idx(self, e):
        a = self.rv(e['a'])
        i = self.rv(e['i'])
        return self.index(a, i)

    def index(self, a, i):
        if isinstance(a, Vec):
            a = Ptr(None, a.c, 0)
        if isinstance(a, Ptr) and isinstance(i, int):
            a = self.textarr(a)
            if a.arr is None:
                if i == 0:
                    return a.cell
                self.event('oob', what='index %d of single object' % i)
                raise Abort('index of single object')
            j = a.i + i
            if not (0 <= j < len(a.arr)):
                self.event('oob', what='index %d of %d' % (j, len(a.arr)))
                raise Abort('out of range index %d of %d at %s' % (j, len(a.arr), self.where()))
            return a.arr[j]
        if isinstance(a, str) and isinstance(i, int):
            if i == len(a):
                return Cell(0)
            if i > len(a):
                self.event('oob', what='string index')
                raise Abort('string index')
            return Cell(charval(a[i]))
        if isinstance(a, Sym):
            k = ('[]', key_of(i))
            c = a.fields.get(k)
            if c is None:
                c = a.fields[k] = Cell(Sym(('[]', a.t, key_of(i))))
            return c
        if isinstance(i, Sym):
            return Cell(Sym(('[]', key_of(a), i.t)))
        raise Broken('index %r[%r] at %s' % (a, i, self.where()))

    def e_new(self, e):
        et = e['et']
        pl = [self.rv(x) for x in e.get('pl', [])]
        if 'e' in e and e['e'] is not None:
            v = self.ev(e['e'])
            if isinstance(v, Cell):
                v = self.copy(self.load(v))
        else:
            v = self.default_value(et)
        r = self.models.new(self, et, v, e, pl)
        if r is not NotImplemented:
            return r
        if e.get('arr'):
            n = self.rv(e['n']) if 'n' in e else None
            self.event('newarr', n=n, et=et)
            if isinstance(n, int) and n <= 4096:
                return Ptr(None, [Cell(self.default_value(et)) for _ in range(n)], 0)
            return Sym(('newarr', key_of(n), len(self.events)))
        c = Cell(v, 'heap')
        self.event('new', cell=c)
        return Ptr(c)

    def e_delete(self, e):
        v = self.rv(e['e'])
        self.event('delete', ptr=v)
        return None

    def e_throw(self, e):
        if 'e' not in e:
            raise CxxThrow(None, None, self.loc())
        v = self.rv(e['e'])
        raise CxxThrow(v, e['e']['t'], self.loc())

    def e_typeid(self, e):
        return Cell(Sym(('typeid',)))

    def e_pdtor(self, e):
        self.ev(e['e'])
        return None

    def e_arrloop(self, e):
        v = self.rv(e['e'])
        return self.copy(v)

    def e_stmtexpr(self, e):
        self.stmt(e['b'])
        return None

    def e_opaque(self, e):
        return Sym(('opaque',))

    def e_unk(self, e):
        raise Broken('expression %s at %s' % (e.get('c'), self.where()))

    def e_cast(self, e):
        ck = e['ck']
        t = e['t']
        if ck == 'ToVoid':
            self.ev(e['e'])
            return None
        v = self.ev(e['e'])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast'):
            return v
        if ck == 'ArrayToPointerDecay':
            x = self.load(v) if isinstance(v, Cell) else v
            if isinstance(x, Vec):
                return Ptr(None, x.c, 0)
            return x
        if ck == 'FunctionToPointerDecay':
            return v
        if isinstance(v, Cell):
            v = self.load(v)
        if isinstance(v, Sym) or ck == 'BitCast' or ck == 'FloatingCast':
            r = self.convsym(ck, v, t, e)
            if r is not NotImplemented:
                return r
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            if isinstance(v, Sym):
                return self.cast_sym(v, t, e)
            if isinstance(v, int):
                return wrap(v, t)
            return v
        if ck == 'IntegralToBoolean' or ck == 'PointerToBoolean' or ck == 'FloatingToBoolean' or ck == 'MemberPointerToBoolean':
            if isinstance(v, Sym):
                return Sym(('tobool', v.t), t)
            return 1 if self.decide(v) else 0
        if ck == 'IntegralToFloating':
            return float(v) if isinstance(v, int) else (Sym(('tofloat', v.t), t) if isinstance(v, Sym) else v)
        if ck == 'FloatingToIntegral':
            return wrap(int(v), t) if isinstance(v, float) else (Sym(('toint', v.t), t) if isinstance(v, Sym) else v)
        if ck == 'NullToPointer':
            return None
        return v

    def cast_sym(self, v, t, e):
        ft = e['e']['t'].strip() if e['e'].get('t') else None
        if ft is not None and t.k in ('int', 'enum', 'bool') and ft.k in ('int', 'enum', 'bool') and ft.w and t.w:
            # widening or same width: identity on the term (sign changes recorded)
            if t.w > ft.w or (t.w == ft.w and t.sg == ft.sg):
                return Sym(v.t, t)
            if t.w == ft.w:
                return Sym(v.t, t)
        return Sym(('trunc', t.w, v.t), t)
