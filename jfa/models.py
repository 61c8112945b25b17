"""Abstract models of the standard library used by the interpreted code.

Every model keys on the resolved declaration (class template and member, or
namespace function), never on source text.
"""
import functools
import hashlib
import struct
from .prog import Broken
from .interp import (charof, TextCell, charval, isopaque, OutOfRange, Cell, Sym, Ptr, Obj, Vec, Map, Opt, Variant, UPtr, Closure, FnRef, Iter, PyFn, UNINIT,
                     CxxThrow, Abort, key_of, hkey, wrap)

VEC = {'std::vector', 'std::array', 'std::initializer_list', 'std::deque', 'std::list', 'std::span', 'std::tuple',
       'llvm::ArrayRef', 'llvm::MutableArrayRef', 'llvm::SmallVector', 'llvm::SmallVectorImpl',
       'llvm::SmallVectorTemplateBase', 'llvm::SmallVectorTemplateCommon', 'std::_Vector_base', 'std::stack'}
STR = {'std::basic_string', 'std::basic_string_view', 'llvm::StringRef', 'llvm::Twine'}
MAPS = {'std::map', 'std::unordered_map', 'std::multimap', 'llvm::StringMap', 'llvm::DenseMap', 'llvm::DenseMapBase'}
SETS = {'std::set', 'std::unordered_set', 'llvm::DenseSet', 'llvm::StringSet'}
UPTR = {'std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'}
STREAM = {'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ostream', 'std::basic_istringstream',
          'llvm::raw_string_ostream', 'llvm::raw_ostream', 'std::basic_ios', 'std::ios_base'}
ITER = {'__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::_Rb_tree_iterator',
        'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator',
        'std::__detail::_Node_iterator_base', 'std::move_iterator'}

FUNCTORS = {'std::less', 'std::greater', 'std::equal_to', 'std::plus', 'std::minus', 'std::multiplies', 'std::divides', 'std::less_equal',
            'std::greater_equal', 'std::not_equal_to', 'std::bit_and', 'std::bit_or', 'std::bit_xor', 'std::identity'}

_strip = {}


def is_alloc(t):
    """Is the (parameter) type an allocator, not a type that merely names one among its arguments?"""
    t = t.strip()
    n = (t.q or t.s).replace('const ', '').strip()
    return n.startswith('std::allocator') or n in ('allocator_type', '_Alloc') or n.endswith('::allocator_type')


def strip_targs(q):
    """Qualified name without template arguments."""
    r = _strip.get(q)
    if r is not None:
        return r
    out = []
    d = 0
    i = 0
    while i < len(q):
        c = q[i]
        if q.startswith('operator', i) and d == 0:
            j = i + 8
            for op in ('<=>', '<<=', '>>=', '->*', '<<', '>>', '<=', '>=', '->', '<', '>', '()'):
                if q.startswith(op, j):
                    out.append(q[i:j + len(op)])
                    i = j + len(op)
                    break
            else:
                out.append('operator')
                i = j
            continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = ''.join(out)
    _strip[q] = r
    return r


class Stream:
    def __init__(self):
        self.parts = []
        self.target = None

    def text(self):
        return concat(self.parts)


def concat(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    flat = []
    for p in out:
        if isinstance(p, Sym) and isinstance(p.t, tuple) and p.t[:1] == ('cat',):
            flat += list(p.t[1:])
        else:
            flat.append(key_of(p))
    return Sym(('cat',) + tuple(flat))


def mkpair(a, b):
    o = Obj(None)
    o.f['first'] = a if isinstance(a, Cell) else Cell(a)
    o.f['second'] = b if isinstance(b, Cell) else Cell(b)
    return o


def rv(x):
    return x.v if isinstance(x, Cell) else x


def strval(it, x):
    """Text of a string-like value: str or Sym."""
    v = rv(x)
    if isinstance(v, Ptr):
        t = v.target() if v.arr is None else None
        if t is not None:
            v = t.v
            if isinstance(t, TextCell) and isinstance(v, str):
                return v.split(chr(0), 1)[0]   # a C string ends at its first zero byte
        else:
            out = []
            for c in v.arr[v.i:]:
                if c.v == 0:
                    break
                if not isinstance(c.v, (int, Sym)):
                    return Sym(('chars', id(v.arr)))
                out.append(charof(c.v))
            return ''.join(out)
    if isinstance(v, int) and not isinstance(v, bool):
        return chr(v & 0x10ffff)
    if v is None or v is UNINIT:
        return ''
    if isinstance(v, Vec):
        return ''.join(charof(c.v) for c in v.c if isinstance(c.v, (int, Sym)))
    return v


def bytes_at(p, n):
    """n characters at pointer p, or None when it does not point into known bytes; may raise OutOfRange."""
    if isinstance(p, str):
        if n > len(p) + 1:
            raise OutOfRange('%d bytes of a %d byte text' % (n, len(p)))
        return (p + '\0')[:n]
    if isinstance(p, Ptr) and p.arr is not None and isinstance(p.i, int) and isinstance(n, int):
        if n < 0 or p.i < 0 or p.i + n > len(p.arr):
            raise OutOfRange('%d bytes at offset %d of %d' % (n, p.i, len(p.arr)))
        cs = [c.v for c in p.arr[p.i:p.i + n]]
        if all(isinstance(c, (int, Sym)) for c in cs):
            return ''.join(charof(c) for c in cs)
    if isinstance(p, Ptr) and p.cell is not None and isinstance(p.cell.v, str) and isinstance(n, int):
        return bytes_at(p.cell.v, n)
    return None


def has_float(v):
    v = rv(v)
    if isinstance(v, float):
        return True
    if isinstance(v, Vec):
        return any(has_float(c) for c in v.c)
    if isinstance(v, Variant):
        return has_float(v.c)
    return False


def less(it, a, b):
    a = rv(a)
    b = rv(b)
    if it.kcmp is not None:
        r = it.kcmp('<', a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a < b
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    if isinstance(a, Vec) and isinstance(b, Vec):
        for x, y in zip(a.c, b.c):
            if less(it, x, y):
                return True
            if less(it, y, x):
                return False
        return len(a.c) < len(b.c)
    if isinstance(a, Variant) and isinstance(b, Variant):
        if a.i != b.i:
            return a.i < b.i
        return less(it, a.c, b.c)
    if isinstance(a, Obj) and isinstance(b, Obj) and 'first' in a.f and 'first' in b.f:
        if less(it, a.f['first'], b.f['first']):
            return True
        if less(it, b.f['first'], a.f['first']):
            return False
        return less(it, a.f['second'], b.f['second'])
    return it.decide(Sym(('<', key_of(a), key_of(b))))


def equal(it, a, b):
    a = rv(a)
    b = rv(b)
    if it.kcmp is not None:
        r = it.kcmp('==', a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.c) == len(b.c) and all(equal(it, x, y) for x, y in zip(a.c, b.c))
    if isinstance(a, Variant) and isinstance(b, Variant):
        return a.i == b.i and equal(it, a.c, b.c)
    if isinstance(a, Opt) or isinstance(b, Opt):
        if not isinstance(a, Opt):
            a, b = b, a
        if isinstance(b, Opt):
            if a.c is None or b.c is None:
                return a.c is b.c
            return equal(it, a.c, b.c)
        return a.c is not None and equal(it, a.c, b)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        sa = strval(it, a) if not isinstance(a, str) and isinstance(b, str) else a
        sb = strval(it, b) if not isinstance(b, str) and isinstance(a, str) else b
        if isinstance(sa, str) and isinstance(sb, str):
            return sa == sb
    r = it.equal(a, b)
    if r is not None:
        return r
    if isinstance(a, Iter) and isinstance(b, Iter):
        return a.c is b.c and a.i == b.i
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a is b:
            return True
        if a.cls is not None:
            rec = it.p.rec(a.cls)
            if rec is not None:
                for f in it.p.by_q.get(rec.q + '::operator==', []):
                    return it.decide(rv(it.call_fn(f.decl, Cell(a), [Cell(b)])))
                ns = rec.q.rsplit('::', 1)[0]
                for f in it.p.by_q.get(ns + '::operator==', []):
                    if len(f.decl.p) == 2:
                        return it.decide(rv(it.call_fn(f.decl, None, [Cell(a), Cell(b)])))
        if 'first' in a.f:
            return equal(it, a.f['first'], b.f['first']) and equal(it, a.f['second'], b.f['second'])
    ka, kb = key_of(a), key_of(b)
    if ka == kb:
        return True
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return False
    return it.decide(Sym(('==', ka, kb)))


class Models:
    """Dispatch of library declarations to models."""

    def __init__(self, prog, extra=()):
        self.p = prog
        self.lazy = {}
        self.globals = {'std::nullopt': None, 'std::cerr': Stream(), 'std::cout': Stream()}
        self._cache = {}
        self.extra = list(extra)
        self.free = {}
        for n in dir(self):
            if n.startswith('f_'):
                self.free[n[2:]] = getattr(self, n)

    # ---- dispatch ----
    def find(self, fd):
        m = self._cache.get(fd.key, 0)
        if m != 0:
            return m
        m = self._find(fd)
        self._cache[fd.key] = m
        return m

    def _find(self, fd):
        q = strip_targs(fd.q)
        for x in self.extra:
            m = x.find(fd, q)
            if m is not None:
                return m
        if '::' in q:
            cls, name = q.rsplit('::', 1)
        else:
            cls, name = '', q
        if cls in ('std', '__gnu_cxx', 'std::__detail', '', '__builtin', 'llvm', 'std::ranges', 'std::chrono'):
            m = self.free.get(name)
            if m is None and name.startswith('__builtin_'):
                m = self.free.get(name[10:])
            if m is not None:
                return m
            if name.startswith('operator'):
                return self.free_op(name)
            return None
        base = cls
        kind = None
        if base in VEC:
            kind = 'vec'
        elif base in STR:
            kind = 'str'
        elif base in MAPS or base in SETS:
            kind = 'map'
        elif base in UPTR:
            kind = 'uptr'
        elif base in STREAM:
            kind = 'stream'
        elif base in ITER:
            kind = 'iter'
        elif base.startswith('std::optional') or base.startswith('std::_Optional'):
            kind = 'opt'
        elif base == 'std::variant':
            kind = 'variant'
        elif base == 'std::function' or base == 'llvm::unique_function' or base == 'llvm::function_ref':
            kind = 'func'
        elif base == 'std::pair':
            kind = 'pair'
        elif base.startswith('std::numeric_limits'):
            return self.numeric_limits
        elif base in ('std::hash', 'std::__str_hash_base', 'std::less', 'std::greater', 'std::equal_to', 'std::plus',
                      'std::minus', 'std::multiplies', 'std::divides', 'std::less_equal', 'std::greater_equal',
                      'std::not_equal_to', 'std::bit_and', 'std::bit_or', 'std::bit_xor', 'std::identity'):
            return functools.partial(self.functor, base)
        elif base == 'std::char_traits':
            return self.free.get('ct_' + name)
        elif base in ('std::allocator', 'std::nullopt_t', 'std::__new_allocator', 'std::in_place_t', 'std::monostate'):
            return lambda it, fd, this, a, e: None
        elif base.startswith('std::integral_constant'):
            return lambda it, fd, this, a, e: 1 if 'true' in fd.q else 0
        elif base == 'std::reference_wrapper':
            return lambda it, fd, this, a, e: rv(this)
        elif base.endswith('exception') or base in ('std::runtime_error', 'std::logic_error', 'std::out_of_range',
                                                    'std::invalid_argument', 'std::length_error'):
            return lambda it, fd, this, a, e: Cell('exception') if name == 'what' else Cell(Sym(('exc',)))
        if kind is None:
            return None
        if fd.dtor:
            return lambda it, fd, this, a, e: None
        h = getattr(self, kind + '_' + name, None)
        if h is not None:
            return h
        if name.startswith('operator') and hasattr(self, kind + '_op'):
            return functools.partial(getattr(self, kind + '_op'), name)
        if fd.conv and hasattr(self, kind + '_conv'):
            return getattr(self, kind + '_conv')
        return None

    # ---- interpreter hooks ----
    def default(self, it, ty):
        q = ty.q and strip_targs(ty.q) or strip_targs(ty.s.replace('const ', '').replace('class ', '').replace('struct ', ''))
        for x in self.extra:
            r = x.default(it, ty, q)
            if r is not NotImplemented:
                return r
        return self.make(it, ty, q, None)

    def make(self, it, ty, q, f):
        if q in ('std::array',):
            et = self.elem_type(ty)
            n = ty.ta[1][1] if ty.ta and len(ty.ta) > 1 else 0
            return Vec([Cell(it.default_value(et)) for _ in range(min(int(n), 4096))])
        if q == 'std::tuple':
            return Vec([Cell(it.default_value(t[1])) for t in self.flat_ta(ty)])
        if q in VEC:
            return Vec([])
        if q in STR:
            return ''
        if q in MAPS or q in SETS:
            m = Map()
            m.n = self.map_order(it, ty, q)
            return m
        if q in UPTR:
            return UPtr(None)
        if q in STREAM:
            return Stream()
        if q.startswith('std::optional'):
            return Opt(None)
        if q == 'std::variant':
            alts = self.alts(ty)
            return Variant(alts, 0, Cell(it.zero_value(alts[0])))
        if q in ('std::function', 'llvm::unique_function', 'llvm::function_ref'):
            return None
        if q == 'std::pair':
            return mkpair(it.zero_value(ty.ta[0][1]), it.zero_value(ty.ta[1][1]))
        if q in ('std::allocator', 'std::nullopt_t', 'std::monostate', 'std::in_place_t'):
            return None
        if q.startswith('std::hash') or q.startswith('std::less') or q.startswith('std::greater') or \
                q.startswith('std::equal_to') or q.startswith('std::plus'):
            return Obj(ty)
        if q.startswith('std::') and 'iterator' in q:
            return None
        if q == 'std::mutex' or q == 'std::atomic':
            return Sym(('obj', q))
        return NotImplemented

    def flat_ta(self, ty):
        out = []
        for a in ty.ta or []:
            if a[0] == 't':
                out.append(a)
            elif a[0] == 'p':
                out += a[1]
        return out

    def elem_type(self, ty):
        for a in ty.ta or []:
            if a[0] == 't':
                return a[1]
        return None

    def alts(self, ty):
        if ty.s.startswith('const '):
            t2 = self.p.types.get(ty.s[6:])
            if t2 is not None:
                ty = t2
        r = [a[1] for a in ty.ta or [] if a[0] == 't']
        if not r:
            raise Broken('variant alternatives of %s' % ty.s)
        return r

    def map_order(self, it, ty, q):
        """('less'|'eq', functor) when the container orders keys by a repository functor."""
        hf = None
        if 'unordered' in q:
            for a in (ty.ta or [])[1:]:
                rec = self.p.rec(a[1]) if a[0] == 't' and a[1] is not None else None
                if rec is not None:
                    for f in self.p.by_q.get(rec.q + '::operator()', []):
                        if len(f.decl.p) == 1:
                            hf = (Obj(rec.type), f.decl)
        for a in (ty.ta or [])[1:]:
            if a[0] == 't' and a[1] is not None:
                rec = self.p.rec(a[1])
                if rec is None:
                    continue
                ops = [f.decl for f in self.p.by_q.get(rec.q + '::operator()', [])]
                for d in ops:
                    if len(d.p) == 2:
                        return ('less' if q in ('std::map', 'std::set') else 'eq', Obj(rec.type), d, hf)
        if q in ('std::map', 'std::set'):
            return ('deflt',)
        return None

    def construct(self, it, ty, f, a, e):
        q = ty.q and strip_targs(ty.q) or strip_targs(ty.s.replace('const ', ''))
        for x in self.extra:
            r = x.construct(it, ty, q, f, a, e)
            if r is not NotImplemented:
                return r
        if len(a) == 1 and (f.copyctor or f.movector):
            src = a[0]
            v = it.copy(it.load(src)) if isinstance(src, Cell) else src
            if f.movector and isinstance(src, Cell):
                it.moved(src)
            return v
        base = self.make(it, ty, q, f)
        if base is NotImplemented:
            if q.startswith('std::') and ('error' in q or 'exception' in q or q in ('std::out_of_range', 'std::invalid_argument', 'std::bad_alloc')):
                return Sym(('exc', q))
            if len(a) <= 1 and 'iterator' in q:
                return rv(a[0]) if a else None
            if q.startswith('std::') and 'lock' in q or q.startswith('std::scoped'):
                it.event('lock', what=[key_of(x) for x in a])
                return Sym(('lock', len(it.events)))
            return NotImplemented
        if not a:
            return base
        a0 = rv(a[0])
        if q in VEC:
            return self.make_vec(it, ty, q, f, a, a0)
        if q in STR:
            return self.make_str(it, a, a0, f)
        if q in MAPS or q in SETS:
            if isinstance(a0, Vec):
                for c in a0.c:
                    o = c.v
                    if q in SETS:
                        self.map_put(it, base, o, None)
                    else:
                        self.map_put(it, base, o.f['first'].v, o.f['second'].v)
                return base
            if isinstance(a0, Map):
                return it.copy(a0)
            if isinstance(a0, (Iter, Ptr)) and len(a) >= 2:
                for c in self.range(it, a[0], a[1]):
                    o = c.v
                    if q in SETS:
                        self.map_put(it, base, o, None)
                    else:
                        self.map_put(it, base, o.f['first'].v, o.f['second'].v)
                return base
            return base
        if q in UPTR:
            if isinstance(a0, UPtr):
                v = UPtr(a0.p)
                if isinstance(a[0], Cell):
                    a[0].v = UPtr(None)
                return v
            return UPtr(a0)
        if q.startswith('std::optional'):
            if a0 is None and f.p and 'nullopt' in f.p[0].s:
                return Opt(None)
            if isinstance(a0, Opt):
                return it.copy(a0)
            et = self.elem_type(ty)
            return Opt(Cell(self.convert(it, et, a[0])))
        if q == 'std::variant':
            return self.make_variant(it, ty, f, a, e)
        if q in ('std::function', 'llvm::unique_function', 'llvm::function_ref'):
            if isinstance(a0, Ptr) and a0.arr is None:
                a0 = a0.cell.v
            return it.copy(a0)
        if q == 'std::pair':
            if len(a) == 2:
                return mkpair(it.copy(it.load(a[0])) if isinstance(a[0], Cell) else a[0],
                              it.copy(it.load(a[1])) if isinstance(a[1], Cell) else a[1])
            if isinstance(a0, Obj):
                return it.copy(a0)
        if q in STREAM:
            s = Stream()
            if 'raw_string_ostream' in q:
                s.target = a[0]
            elif isinstance(a0, str):
                s.parts.append(a0)
            return s
        if q.startswith('std::hash') or q.startswith('std::greater') or q.startswith('std::less'):
            return Obj(ty)
        if q in ('std::allocator', 'std::nullopt_t'):
            return None
        return NotImplemented

    def convert(self, it, ty, x):
        """Implicit conversion of a value into element type ty (best effort)."""
        if isinstance(x, Cell):
            v = it.copy(it.load(x))
        else:
            v = x
        if ty is None:
            return v
        s = ty.strip()
        q = s.q and strip_targs(s.q) or strip_targs(s.s.replace('const ', ''))
        if q == 'std::variant' and not isinstance(v, Variant):
            return self.variant_of(it, s, v, None)
        if q in STR and not isinstance(v, (str, Sym)):
            return strval(it, v)
        if q in UPTR and not isinstance(v, UPtr):
            return UPtr(v)
        if isinstance(v, int) and s.k in ('int', 'bool', 'enum'):
            return wrap(v, s)
        return v

    def variant_of(self, it, ty, v, at):
        alts = self.alts(ty)
        if at is not None:
            n = at.strip().s.replace('const ', '')
            for i, t in enumerate(alts):
                if t.s == n:
                    return Variant(alts, i, Cell(v))
            q = strip_targs(n)
            for i, t in enumerate(alts):
                if strip_targs(t.s) == q and q not in VEC:
                    return Variant(alts, i, Cell(v))
            if at.strip().k in ('arr', 'ptr'):
                v = strval(it, v)
        if isinstance(v, str):
            for i, t in enumerate(alts):
                if 'basic_string' in t.s and 'vector' not in t.s:
                    return Variant(alts, i, Cell(v))
        if isinstance(v, float):
            for i, t in enumerate(alts):
                if t.k == 'flt' and (at is None or t.w == at.strip().w):
                    return Variant(alts, i, Cell(v))
        if isinstance(v, Variant):
            return v
        raise Broken('variant alternative for %r (%s) at %s' % (v, at.s if at else None, it.where()))

    def make_variant(self, it, ty, f, a, e):
        v = it.copy(it.load(a[0])) if isinstance(a[0], Cell) else a[0]
        if isinstance(v, Variant):
            return v
        at = None
        if e is not None and e.get('a'):
            at = e['a'][0]['t'] if 't' in e['a'][0] else None
        if at is None and f.p:
            at = f.p[0]
        if f.p and 'in_place' in f.p[0].s and len(a) > 1:
            alts = self.alts(ty)
            for x in f.ta or []:
                if x[0] == 'v':
                    return Variant(alts, x[1], Cell(rv(a[1])))
                if x[0] == 't':
                    return self.variant_of(it, ty, rv(a[1]), x[1])
        return self.variant_of(it, ty, v, at)

    def make_vec(self, it, ty, q, f, a, a0):
        et = self.elem_type(ty)
        pt = f.p[0].strip().s if f.p else ''
        if isinstance(a0, Vec) and (len(a) == 1 or is_alloc(f.p[-1])):
            if q in ('llvm::ArrayRef', 'llvm::MutableArrayRef', 'std::span'):
                return Vec(a0.c)
            return Vec([Cell(self.convert(it, et, c)) for c in a0.c])
        if q in ('llvm::ArrayRef', 'llvm::MutableArrayRef', 'std::span'):
            if len(a) == 2:
                b = rv(a[1])
                if isinstance(b, int) and isinstance(a0, Ptr):
                    if a0.arr is None:
                        if isinstance(a0.cell.v, str) and not (b == 1 and len(a0.cell.v) != 1 and et is not None and et.k not in ('int',)):
                            cs = bytes_at(a0.cell.v, b)
                            un = et is not None and et.k == 'int' and not et.sg
                            vs = [charval(c) for c in cs]
                            return Vec([Cell(c & 255 if un and isinstance(c, int) else c) for c in vs])
                        return Vec([a0.cell][:b])
                    return Vec(a0.arr[a0.i:a0.i + b])
                if isinstance(b, int) and a0 is None:
                    return Vec([])
                if isinstance(b, Ptr):
                    return Vec(a0.arr[a0.i:b.i])
            if len(a) == 1:
                if isinstance(a[0], Cell) and not isinstance(a0, Ptr):
                    return Vec([a[0]])
                return Vec([Cell(a0)])
        if isinstance(a0, int) and f.p and f.p[0].k == 'int':
            if a0 > 100000:
                it.event('bigalloc', n=a0)
                raise Abort('huge vector')
            if len(a) > 1 and f.p[1].k == 'ref' and not is_alloc(f.p[1]):
                return Vec([Cell(it.copy(it.load(a[1]) if isinstance(a[1], Cell) else a[1])) for _ in range(a0)])
            return Vec([Cell(it.zero_value(et)) for _ in range(a0)])
        if a0 is None and len(a) >= 2 and rv(a[1]) is None and f.p and f.p[0].k == 'ptr':
            return Vec([])
        if isinstance(a0, (Iter, Ptr)) and len(a) >= 2:
            return Vec([Cell(self.convert(it, et, Cell(it.copy(c.v)))) for c in self.range(it, a[0], a[1])])
        if q == 'std::tuple':
            return Vec([Cell(it.copy(it.load(x)) if isinstance(x, Cell) else x) for x in a])
        if isinstance(a0, Sym):
            if f.p and f.p[0].k == 'int':
                it.event('symalloc', n=a0, et=et)
                return Sym(('vec', a0.t, len(it.events)), ty)
            return Sym(('vecfrom', a0.t) + ((key_of(a[1]),) if len(a) > 1 and not is_alloc(f.p[1]) else ()), ty)
        if q == 'std::vector' and f.p and is_alloc(f.p[0]):
            return Vec([])
        return NotImplemented

    def make_str(self, it, a, a0, f):
        if len(a) >= 2:
            b = rv(a[1])
            if len(f.p) > 1 and is_alloc(f.p[1]) and f.p[0].k != 'int':
                return strval(it, a0)
            if isinstance(a0, (Iter, Ptr)) and isinstance(b, (Iter, Ptr)):
                cs = self.range(it, a[0], a[1])
                return ''.join(charof(c.v) for c in cs)
            if f.p[0].k == 'int':
                if isinstance(a0, int) and isinstance(b, int):
                    return chr(b & 255) * min(a0, 100000)
                return Sym(('strfill', key_of(a0), key_of(b)))
            k = bytes_at(a0, b) if isinstance(b, int) and f.p[0].k == 'ptr' else None
            if k is not None:
                return k
            s = strval(it, a0)
            if isinstance(s, str) and isinstance(b, int):
                if f.p[0].k == 'ptr' or not (f.p[0].strip().k == 'rec'):
                    return s[:b]
                if len(a) > 2 and isinstance(rv(a[2]), int):
                    n = rv(a[2])
                    return s[b:b + n] if n >= 0 else s[b:]
                return s[b:]
            return Sym(('bytes' if isinstance(s, Sym) and f.p and f.p[0].k == 'ptr' else 'substr', key_of(s), key_of(b)))
        if isinstance(a0, Iter) or isinstance(a0, Vec):
            return strval(it, a0)
        if len(f.p) >= 1 and f.p[0].k == 'int' and isinstance(a0, int):
            return Sym(('twine', a0)) if 'Twine' not in f.q else str(a0)
        if isinstance(a0, str) and len(f.p) >= 1 and f.p[0].k == 'ptr':
            return a0.split(chr(0), 1)[0]
        return strval(it, a0)

    def aggregate(self, it, ty, a, e):
        q = ty.q and strip_targs(ty.q) or strip_targs(ty.s.replace('const ', ''))
        for x in self.extra:
            r = x.aggregate(it, ty, q, a, e)
            if r is not NotImplemented:
                return r
        if q == 'std::array' or q in VEC:
            if len(a) == 1 and isinstance(rv(a[0]), Vec):
                return it.copy(rv(a[0]))
            base = self.make(it, ty, q, None)
            for i, x in enumerate(a):
                v = it.copy(it.load(x)) if isinstance(x, Cell) else x
                if i < len(base.c):
                    base.c[i].v = v
                else:
                    base.c.append(Cell(v))
            return base
        if not a:
            r = self.make(it, ty, q, None)
            if r is not NotImplemented:
                return r
        if q == 'std::pair':
            return mkpair(rv(a[0]), rv(a[1]))
        if len(a) == 1:
            return rv(a[0])
        if not a and q.startswith('std::') and (q.split('::')[-1] in ('hash', '__hash_base', '__str_hash_base') or ty.q and q in FUNCTORS):
            return Obj(ty)
        raise Broken('aggregate of %s at %s' % (ty.s, it.where()))

    def new(self, it, et, v, e, pl):
        for x in self.extra:
            r = x.new(it, et, v, e, pl)
            if r is not NotImplemented:
                return r
        return NotImplemented

    def incdec(self, it, old, op):
        if isinstance(old, Iter):
            return self.adv(it, old, 1 if op == '++' else -1)
        if isinstance(old, float):
            return old + (1 if op == '++' else -1)
        raise Broken('%s of %r at %s' % (op, old, it.where()))

    def binop(self, it, op, a, b, t):
        for x in self.extra:
            r = x.binop(it, op, a, b, t)
            if r is not NotImplemented:
                return r
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.iter_bin(it, op, a, b)
        return NotImplemented

    def iterate(self, it, r, s):
        v = rv(r)
        if isinstance(v, Ptr):
            v = v.target().v
        if isinstance(v, Vec):
            return [c for c in list(v.c)]
        if isinstance(v, Map):
            return [self.map_cell(v, k) for k in self.map_keys(it, v)]
        if isinstance(v, str):
            return [Cell(charval(c)) for c in v]
        for x in self.extra:
            q = x.iterate(it, v, s)
            if q is not NotImplemented:
                return q
        if isinstance(v, Obj) and v.cls is not None:
            rec = it.p.rec(v.cls)
            b = it.p.by_q.get(rec.q + '::begin', []) if rec else []
            en = it.p.by_q.get(rec.q + '::end', []) if rec else []
            if b and en:
                x = it.call_fn(b[0].decl, Cell(v), [])
                y = it.call_fn(en[0].decl, Cell(v), [])
                return self.range(it, x, y)
        if isinstance(v, Sym):
            # unknown container: zero or one opaque element
            n = it.choose(2, ('iter', v.t))
            it.event('symiter', term=v.t, n=n)
            if n == 0:
                return []
            el = v.fields.get('elem')
            if el is None:
                el = v.fields['elem'] = Cell(Sym(('elem', v.t)))
            return [el]
        raise Broken('iteration over %r at %s' % (v, it.where()))

    def decompose(self, it, o):
        if isinstance(o, Obj):
            return list(o.f.values())
        if isinstance(o, Vec):
            return o.c
        if isinstance(o, Sym):
            class L:
                def __iter__(s):
                    i = 0
                    while True:
                        f = o.fields.get(('bind', i))
                        if f is None:
                            f = o.fields[('bind', i)] = Cell(Sym(('bind', o.t, i)))
                        yield f
                        i += 1
            return L()
        raise Broken('structured binding of %r at %s' % (o, it.where()))

    # ---- ranges and iterators ----
    def adv(self, it, x, n):
        if isinstance(x, Ptr) and x.arr is not None:
            return Ptr(None, x.arr, x.i + n)
        if isinstance(x, Iter):
            if x.kind in ('v', 'r', 's'):
                return Iter(x.kind, x.c, x.i + n)
            if x.kind == 'm':
                ks = self.map_keys(it, x.c) + [None]
                j = ks.index(x.i) + n
                if j < 0 or j >= len(ks):
                    it.event('oob', what='map iterator past the end')
                    raise Abort('iterator past the end')
                return Iter('m', x.c, ks[j])
            if x.kind == 'ir':
                return Iter('ir', self.adv(it, x.c, -n), 0)
        if isinstance(x, Sym) and isinstance(n, int):
            return Sym(('+', x.t, n))
        raise Broken('advance of %r at %s' % (x, it.where()))

    def iter_cell(self, it, x):
        if x.kind == 'ir':
            return it.deref(self.adv(it, x.c, -1))
        if x.kind == 'v':
            a, i = x.c, x.i
            cells = a.c if isinstance(a, Vec) else a
            if not (0 <= i < len(cells)):
                it.event('oob', what='dereference of iterator %d of %d' % (i, len(cells)))
                raise Abort('iterator dereference out of range')
            return cells[i]
        if x.kind == 'r':
            n = len(x.c.c)
            if not (0 <= x.i < n):
                it.event('oob', what='dereference of reverse iterator %d of %d' % (x.i, n))
                raise Abort('iterator dereference out of range')
            return x.c.c[n - 1 - x.i]
        if x.kind == 's':
            if not (0 <= x.i < len(x.c)):
                it.event('oob', what='string iterator')
                raise Abort('iterator dereference out of range')
            return Cell(charval(x.c[x.i]))
        if x.kind == 'm':
            if x.i is None or x.i not in x.c.d:
                it.event('oob', what='dereference of end()')
                raise Abort('dereference of end()')
            return self.map_cell(x.c, x.i)
        raise Broken('iterator kind')

    def iter_bin(self, it, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if op in ('==', '!='):
                r = a.c is b.c and a.i == b.i
                return int(r if op == '==' else not r)
            if op == '-':
                return a.i - b.i
            return it.arith(op, a.i, b.i, None)
        if isinstance(a, Iter) and isinstance(b, int):
            return self.adv(it, a, b if op == '+' else -b)
        if isinstance(b, Iter) and isinstance(a, int):
            return self.adv(it, b, a)
        return NotImplemented

    def range(self, it, a, b):
        a = rv(a)
        b = rv(b)
        if type(a) is Ptr and type(b) is Ptr and a.arr is not None and a.arr is b.arr and 0 <= a.i <= b.i <= len(a.arr):
            return a.arr[a.i:b.i]
        out = []
        n = 0
        while not equal(it, a, b):
            c = it.deref(a)
            out.append(c if isinstance(c, Cell) else Cell(c))
            a = self.adv(it, a, 1)
            n += 1
            if n > 200000:
                raise Broken('range does not end at %s' % it.where())
        return out

    def iter_op(self, name, it, fd, this, a, e):
        x = rv(this)
        if name in ('operator*', 'operator->'):
            c = it.deref(x)
            return c if name == 'operator*' else Ptr(c)
        if name in ('operator++', 'operator--'):
            this.v = self.adv(it, x, 1 if name == 'operator++' else -1)
            return x if a else this
        if name in ('operator+', 'operator-'):
            b = rv(a[0])
            if isinstance(b, int):
                return self.adv(it, x, b if name == 'operator+' else -b)
            return it.binop('-', x, b, None)
        if name in ('operator+=', 'operator-='):
            b = rv(a[0])
            this.v = self.adv(it, x, b if name == 'operator+=' else -b)
            return this
        if name == 'operator[]':
            return it.deref(self.adv(it, x, rv(a[0])))
        if name in ('operator==', 'operator!='):
            r = equal(it, x, a[0])
            return int(r if name == 'operator==' else not r)
        if name == 'operator=':
            this.v = rv(a[0])
            return this
        return NotImplemented

    def iter_base(self, it, fd, this, a, e):
        x = rv(this)
        if x.kind == 'r':
            return Iter('v', x.c, len(x.c.c) - x.i)
        return x

    # ---- vectors ----
    def vec_of(self, it, this):
        v = rv(this)
        if isinstance(v, Vec):
            return v
        if isinstance(v, Sym):
            return None
        if v is UNINIT:
            this.v = Vec([])
            return this.v
        raise Broken('vector operation on %r at %s' % (v, it.where()))

    def sym_call(self, it, fd, this, a):
        v = rv(this)
        t = ('call', fd.n, v.t) + tuple(key_of(x) for x in a)
        c = v.fields.get(t)
        if c is None:
            c = v.fields[t] = Cell(Sym(t, fd.r.strip() if fd.r is not None else None))
        if not fd.const and fd.r is not None and fd.r.k == 'void':
            it.event('symmut', what=fd.n, term=v.t)
            return None
        return c if fd.r is not None and fd.r.k == 'ref' else c.v

    def vec_size(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if v is None:
            return self.sym_call(it, fd, this, a)
        return len(v.c)

    def vec_empty(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if v is None:
            return Sym(('==', ('call', 'size', rv(this).t), 0))
        return int(not v.c)

    def vec_reserve(self, it, fd, this, a, e):
        n = rv(a[0])
        it.event('reserve', n=n, et=self.elem_type(fd.cls) if fd.cls is not None else None)
        return None

    def vec_shrink_to_fit(self, it, fd, this, a, e):
        return None

    def vec_capacity(self, it, fd, this, a, e):
        return Sym(('capacity', id(this)))

    def vec_resize(self, it, fd, this, a, e):
        n = rv(a[0])
        et = self.elem_type(fd.cls) if fd.cls is not None else None
        v = self.vec_of(it, this)
        if isinstance(n, Sym) or v is None:
            it.event('symalloc', n=n, et=et)
            this.v = Sym(('vec', key_of(n), len(it.events)), fd.cls)
            return None
        if n > 100000:
            it.event('bigalloc', n=n)
            raise Abort('huge resize')
        while len(v.c) > n:
            v.c.pop()
        while len(v.c) < n:
            v.c.append(Cell(it.copy(rv(a[1])) if len(a) > 1 else it.zero_value(et)))
        return None

    vec_assign_n = vec_resize

    def vec_assign(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if v is None:
            v = this.v = Vec([])
        if len(a) == 1:
            src = rv(a[0])
            v.c[:] = [Cell(it.copy(c.v)) for c in src.c]
            return this
        a0 = rv(a[0])
        if isinstance(a0, int):
            v.c[:] = [Cell(it.copy(rv(a[1]))) for _ in range(min(a0, 100000))]
            return this
        v.c[:] = [Cell(it.copy(c.v)) for c in self.range(it, a[0], a[1])]
        return this

    def build_elem(self, it, et, a, e):
        """Element constructed from emplace arguments."""
        if len(a) == 1:
            v = rv(a[0])
            q = et.q and strip_targs(et.q) or strip_targs(et.s)
            rec = self.p.rec(et)
            if rec is None or (isinstance(v, Obj) and v.cls is not None and self.p.rec(v.cls) is rec):
                if q == 'std::variant' and not isinstance(v, Variant):
                    at = e['a'][0].get('t') if e is not None and e.get('a') else None
                    return self.variant_of(it, et, it.copy(v), at)
                if q in VEC and isinstance(v, int):
                    return Vec([Cell(it.zero_value(self.elem_type(et))) for _ in range(v)])
                if isinstance(v, UPtr) and isinstance(a[0], Cell):
                    r = UPtr(v.p)
                    a[0].v = UPtr(None)
                    return r
                r = self.convert(it, et, a[0])
                if isinstance(a[0], Cell) and e is not None and e.get('a') and self.is_move(e['a'][0]):
                    it.moved(a[0])
                return r
        if not a:
            return it.zero_value(et) if et.k != 'rec' else it.default_value(et)
        q = et.q and strip_targs(et.q) or strip_targs(et.s)
        if q == 'std::pair':
            return mkpair(it.copy(rv(a[0])), it.copy(rv(a[1])))
        rec = self.p.rec(et)
        if rec is not None:
            n = rec.q.split('::')[-1]
            c = [f.decl for f in self.p.by_q.get(rec.q + '::' + n, []) if f.decl.ctor and len(f.decl.p) == len(a) and
                 not (f.decl.copyctor or f.decl.movector)]
            if len(c) > 1 and e is not None:
                at = [x.get('t') for x in e['a']]
                c2 = [d for d in c if all(t is None or it.type_matches(p, t) for p, t in zip(d.p, at))]
                c = c2 or c
            if not c and rec.fields and len(a) <= len(rec.fields):
                o = Obj(et)
                for ff, x in zip(rec.fields, a):
                    o.f[ff.name] = Cell(it.copy(rv(x)))
                it.default_fields(rec, o, set(o.f))
                return o
            if c:
                return it.construct(et, c[0], a)
        if q in STR:
            class F:
                pass
            f = F()
            f.p = [x.get('t') for x in e['a']] if e is not None else []
            f.q = q
            return self.make_str(it, a, rv(a[0]), f)
        if q in VEC and len(a) == 2:
            return Vec([Cell(it.copy(rv(a[1]))) for _ in range(rv(a[0]))])
        if q in UPTR:
            return UPtr(rv(a[0]))
        for x in self.extra:
            r = x.construct(it, et, q, None, a, e)
            if r is not NotImplemented:
                return r
        raise Broken('construction of %s from %d values at %s' % (et.s, len(a), it.where()))

    def is_move(self, e):
        while e is not None and e.get('k') in ('cast', 'tmp', 'ld'):
            e = e.get('e')
        return e is not None and e.get('k') == 'call' and 'f' in e and e['f'].q in ('std::move', 'std::forward')

    def vec_emplace_back(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        et = self.elem_type(fd.cls)
        if v is None:
            it.event('symmut', what='emplace_back', term=rv(this).t)
            return Cell(Sym(('back', rv(this).t)))
        c = Cell(self.build_elem(it, et, a, e))
        v.c.append(c)
        return c

    def vec_push_back(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if v is None:
            it.event('symmut', what='push_back', term=rv(this).t)
            return None
        x = a[0]
        mv = fd.p and fd.p[0].rv
        val = self.convert(it, self.elem_type(fd.cls), x)
        if mv and isinstance(x, Cell):
            it.moved(x)
        v.c.append(Cell(val))
        return None

    vec_push = vec_push_back
    vec_emplace = vec_emplace_back

    def vec_pop_back(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if not v.c:
            it.event('oob', what='pop_back of empty vector')
            raise Abort('pop_back of empty vector')
        v.c.pop()
        return None

    vec_pop = vec_pop_back

    def vec_clear(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if v is None:
            this.v = Vec([])
        else:
            v.c.clear()
        return None

    def vec_at(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        i = rv(a[0])
        if v is None:
            return it.index(rv(this), i)
        if isinstance(i, int):
            if not (0 <= i < len(v.c)):
                raise CxxThrow(Sym(('exc', 'out_of_range')), self.p.types.get('std::out_of_range'), it.loc())
            return v.c[i]
        return it.index(v, i)

    def vec_op(self, name, it, fd, this, a, e):
        if name == 'operator[]':
            v = rv(this)
            return it.index(v, rv(a[0]))
        if name == 'operator=':
            x = a[0]
            v = rv(x)
            mv = fd.moveassign or (fd.p and fd.p[0].rv)
            if isinstance(v, Vec):
                if mv and isinstance(x, Cell) and x is not this:
                    this.v = Vec(v.c)
                    x.v = Vec([])
                else:
                    et = self.elem_type(fd.cls) if fd.cls is not None else None
                    this.v = Vec([Cell(self.convert(it, et, c)) for c in v.c])
            else:
                this.v = it.copy(v)
            return this
        if name in ('operator==', 'operator!='):
            r = equal(it, this, a[0])
            return int(r if name == 'operator==' else not r)
        if fd.conv:
            return it.copy(rv(this))
        return NotImplemented

    def vec_conv(self, it, fd, this, a, e):
        return rv(this)

    def vec_back(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if v is None:
            return self.sym_call(it, fd, this, a)
        if not v.c:
            it.event('oob', what='back() of empty vector')
            raise Abort('back() of empty vector')
        return v.c[-1]

    vec_top = vec_back

    def vec_front(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if v is None:
            return self.sym_call(it, fd, this, a)
        if not v.c:
            it.event('oob', what='front() of empty vector')
            raise Abort('front() of empty vector')
        return v.c[0]

    def vec_data(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if v is None:
            return self.sym_call(it, fd, this, a)
        return Ptr(None, v.c, 0)

    def vec_begin(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if v is None:
            return self.sym_call(it, fd, this, a)
        return Iter('v', v, 0) if 'initializer_list' not in fd.q and 'ArrayRef' not in fd.q and 'array' not in fd.q else Ptr(None, v.c, 0)

    def vec_end(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if v is None:
            return self.sym_call(it, fd, this, a)
        return Iter('v', v, len(v.c)) if 'initializer_list' not in fd.q and 'ArrayRef' not in fd.q and 'array' not in fd.q else Ptr(None, v.c, len(v.c))

    vec_cbegin = vec_begin
    vec_cend = vec_end

    def vec_rbegin(self, it, fd, this, a, e):
        return Iter('r', self.vec_of(it, this), 0)

    def vec_rend(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        return Iter('r', v, len(v.c))

    vec_crbegin = vec_rbegin
    vec_crend = vec_rend

    def vec_insert(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        pos = rv(a[0])
        i = pos.i
        if len(a) == 3:
            a1 = rv(a[1])
            if isinstance(a1, int):
                cs = [Cell(it.copy(rv(a[2]))) for _ in range(a1)]
            else:
                cs = [Cell(it.copy(c.v)) for c in self.range(it, a[1], a[2])]
        else:
            x = rv(a[1])
            if isinstance(x, Vec) and 'initializer_list' in fd.p[1].s:
                cs = [Cell(it.copy(c.v)) for c in x.c]
            else:
                cs = [Cell(self.convert(it, self.elem_type(fd.cls), a[1]))]
                if fd.p[1].rv and isinstance(a[1], Cell):
                    it.moved(a[1])
        v.c[i:i] = cs
        return Iter('v', v, i)

    def vec_append(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        if len(a) == 2:
            v.c += [Cell(it.copy(c.v)) for c in self.range(it, a[0], a[1])]
        else:
            v.c += [Cell(it.copy(c.v)) for c in rv(a[0]).c]
        return None

    def vec_erase(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        i = rv(a[0]).i
        j = rv(a[1]).i if len(a) > 1 else i + 1
        del v.c[i:j]
        return Iter('v', v, i)

    def vec_swap(self, it, fd, this, a, e):
        this.v, a[0].v = a[0].v, this.v
        return None

    def vec_fill(self, it, fd, this, a, e):
        for c in self.vec_of(it, this).c:
            c.v = it.copy(rv(a[0]))
        return None

    def vec_slice(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        n = rv(a[0])
        m = rv(a[1]) if len(a) > 1 else len(v.c) - n
        return Vec(v.c[n:n + m])

    def vec_drop_front(self, it, fd, this, a, e):
        return Vec(self.vec_of(it, this).c[rv(a[0]) if a else 1:])

    def vec_drop_back(self, it, fd, this, a, e):
        v = self.vec_of(it, this)
        return Vec(v.c[:len(v.c) - (rv(a[0]) if a else 1)])

    # ---- strings ----
    def str_v(self, it, this):
        return strval(it, this)

    def str_size(self, it, fd, this, a, e):
        s = strval(it, this)
        if isinstance(s, str):
            return sum(1 if ord(c) < 256 or ord(c) >= 0xF0000 else len(c.encode('utf-8', 'surrogatepass')) for c in s)
        return Sym(('len', s.t))

    str_length = str_size

    def str_empty(self, it, fd, this, a, e):
        s = strval(it, this)
        if isinstance(s, str):
            return int(not s)
        if isinstance(s.t, tuple) and s.t[0] == 'cat' and any(isinstance(x, str) and x for x in s.t[1:]):
            return 0
        return Sym(('==', ('len', s.t), 0))

    def str_data(self, it, fd, this, a, e):
        if isinstance(rv(this), Sym):
            return rv(this)
        s = strval(it, this)
        c = this if isinstance(this, Cell) else Cell(s)
        return Ptr(it.textcell(c, s))

    str_c_str = str_data

    def str_str(self, it, fd, this, a, e):
        return strval(it, this)

    def str_reserve(self, it, fd, this, a, e):
        it.event('reserve', n=rv(a[0]) if a else 0, et=None)
        return None

    def str_clear(self, it, fd, this, a, e):
        this.v = ''
        return None

    def str_append(self, it, fd, this, a, e):
        if len(a) == 2:
            a0 = rv(a[0])
            b = rv(a[1])
            k = bytes_at(a0, b) if isinstance(b, int) and fd.p[0].k == 'ptr' else None
            if k is not None:
                x = k
            elif isinstance(a0, int):
                x = chr(b & 255) * a0 if isinstance(b, int) else Sym(('fill', a0, key_of(b)))
            elif isinstance(a0, (Iter,)):
                x = ''.join(charof(c.v) for c in self.range(it, a0, b))
            else:
                s = strval(it, a0)
                if isinstance(s, str) and isinstance(b, int):
                    x = s[:b] if fd.p[0].k == 'ptr' else s[b:]
                else:
                    x = Sym(('bytes', key_of(a0), key_of(b)))
            it.event('append', what=x)
            this.v = concat([strval(it, this), x])
            return this
        if len(a) == 3:
            x = Sym(('bytes', key_of(a[0]), key_of(a[1]), key_of(a[2])))
            this.v = concat([strval(it, this), x])
            return this
        it.event('append', what=strval(it, a[0]))
        this.v = concat([strval(it, this), strval(it, a[0])])
        return this

    def str_push_back(self, it, fd, this, a, e):
        c = rv(a[0])
        x = charof(c) if isinstance(c, (int, Sym)) else Sym(('char', key_of(c)))
        it.event('append', what=x)
        this.v = concat([strval(it, this), x])
        return None

    def str_pop_back(self, it, fd, this, a, e):
        s = strval(it, this)
        this.v = s[:-1] if isinstance(s, str) else Sym(('popback', s.t))
        return None

    def str_assign(self, it, fd, this, a, e):
        if len(a) == 2:
            a0, b = rv(a[0]), rv(a[1])
            k = bytes_at(a0, b) if isinstance(b, int) and fd.p[0].k == 'ptr' else None
            s = strval(it, a0) if k is None else None
            if k is not None:
                this.v = k
            elif isinstance(s, str) and isinstance(b, int) and fd.p[0].k == 'ptr':
                this.v = s[:b]
            elif isinstance(a0, int) and isinstance(b, int):
                this.v = chr(b) * a0
            else:
                this.v = Sym(('bytes', key_of(a0), key_of(b)))
                it.event('strassign', data=a0, n=b)
            return this
        this.v = strval(it, a[0])
        return this

    def str_substr(self, it, fd, this, a, e):
        s = strval(it, this)
        i = rv(a[0]) if a else 0
        n = rv(a[1]) if len(a) > 1 else None
        if isinstance(s, str) and isinstance(i, int) and (n is None or isinstance(n, int)):
            if i > len(s) and 'StringRef' not in fd.q:
                raise CxxThrow(Sym(('exc', 'out_of_range')), self.p.types.get('std::out_of_range'), it.loc())
            return s[i:] if n is None or n < 0 or n > len(s) else s[i:i + n]
        it.event('substr', s=s, i=i, n=n)
        return Sym(('substr', key_of(s), key_of(i), key_of(n)))

    def str_find(self, it, fd, this, a, e):
        s = strval(it, this)
        x = strval(it, a[0])
        i = rv(a[1]) if len(a) > 1 else 0
        if isinstance(s, str) and isinstance(x, str) and isinstance(i, int):
            r = s.find(x, i)
            return r if r >= 0 else (1 << 64) - 1
        return Sym(('find', key_of(s), key_of(x), key_of(i)))

    def str_rfind(self, it, fd, this, a, e):
        s = strval(it, this)
        x = strval(it, a[0])
        if isinstance(s, str) and isinstance(x, str):
            r = s.rfind(x)
            return r if r >= 0 else (1 << 64) - 1
        return Sym(('rfind', key_of(s), key_of(x)))

    def str_find_first_of(self, it, fd, this, a, e):
        s = strval(it, this)
        x = strval(it, a[0])
        i = rv(a[1]) if len(a) > 1 else 0
        if isinstance(s, str) and isinstance(x, str):
            for j in range(i, len(s)):
                if (s[j] in x) == ('not_of' not in fd.n):
                    return j
            return (1 << 64) - 1
        return Sym((fd.n, key_of(s), key_of(x)))

    str_find_first_not_of = str_find_first_of

    def str_find_last_of(self, it, fd, this, a, e):
        s = strval(it, this)
        x = strval(it, a[0])
        if isinstance(s, str) and isinstance(x, str):
            for j in range(len(s) - 1, -1, -1):
                if (s[j] in x) == ('not_of' not in fd.n):
                    return j
            return (1 << 64) - 1
        return Sym((fd.n, key_of(s), key_of(x)))

    str_find_last_not_of = str_find_last_of

    def str_compare(self, it, fd, this, a, e):
        s = strval(it, this)
        b = [rv(y) for y in a]
        x = strval(it, a[2] if len(a) > 2 else a[-1])
        if isinstance(s, str) and isinstance(x, str) and all(isinstance(y, int) for y in b[:2] if len(b) > 2) and all(isinstance(y, int) for y in b[3:]):
            if len(b) > 2:
                if b[0] > len(s) or (len(b) > 4 and b[3] > len(x)):
                    raise CxxThrow(Sym(('exc', 'out_of_range')), self.p.types.get('std::out_of_range'), it.loc())
                s = s[b[0]:b[0] + b[1]]
                if len(b) == 4:
                    x = bytes_at(b[2], b[3]) if isinstance(b[2], Ptr) else x[:b[3]]
                elif len(b) > 4:
                    x = x[b[3]:b[3] + b[4]]
            if isinstance(x, str) and (s == x or not (isopaque(s) or isopaque(x))):
                return (s > x) - (s < x)
        return Sym(('strcmp', key_of(s)) + tuple(key_of(y) for y in a))

    def str_starts_with(self, it, fd, this, a, e):
        s = strval(it, this)
        x = strval(it, a[0])
        if isinstance(s, str) and isinstance(x, str):
            return int(s.startswith(x))
        return Sym(('starts', key_of(s), key_of(x)))

    def str_ends_with(self, it, fd, this, a, e):
        s = strval(it, this)
        x = strval(it, a[0])
        if isinstance(s, str) and isinstance(x, str):
            return int(s.endswith(x))
        return Sym(('ends', key_of(s), key_of(x)))

    def str_back(self, it, fd, this, a, e):
        s = strval(it, this)
        if isinstance(s, str):
            if not s:
                it.event('oob', what='back() of empty string')
                raise Abort('back of empty string')
            return Cell(charval(s[-1]))
        return Cell(Sym(('last', s.t)))

    def str_front(self, it, fd, this, a, e):
        s = strval(it, this)
        if isinstance(s, str) and s:
            return Cell(charval(s[0]))
        return Cell(Sym(('first', key_of(s))))

    def str_at(self, it, fd, this, a, e):
        s = strval(it, this)
        i = rv(a[0])
        if isinstance(s, str) and isinstance(i, int):
            if i >= len(s):
                raise CxxThrow(Sym(('exc', 'out_of_range')), self.p.types.get('std::out_of_range'), it.loc())
            return Cell(charval(s[i]))
        return Cell(Sym(('at', key_of(s), key_of(i))))

    def str_swap(self, it, fd, this, a, e):
        this.v, a[0].v = a[0].v, this.v
        return None

    def str_replace(self, it, fd, this, a, e):
        s = strval(it, this)
        i, n, x = rv(a[0]), rv(a[1]), strval(it, a[2])
        if isinstance(s, str) and isinstance(i, int) and isinstance(n, int) and isinstance(x, str) and len(a) == 3:
            this.v = s[:i] + x + s[i + n:]
        else:
            this.v = Sym(('replace', key_of(s)) + tuple(key_of(rv(y)) for y in a))
        return this

    def str_begin(self, it, fd, this, a, e):
        s = strval(it, this)
        return Iter('s', s, 0) if isinstance(s, str) else Sym(('begin', s.t))

    def str_end(self, it, fd, this, a, e):
        s = strval(it, this)
        return Iter('s', s, len(s)) if isinstance(s, str) else Sym(('end', s.t))

    str_cbegin = str_begin
    str_cend = str_end

    def str_resize(self, it, fd, this, a, e):
        s = strval(it, this)
        n = rv(a[0])
        if isinstance(s, str) and isinstance(n, int) and n <= 100000:
            this.v = s[:n] + '\0' * max(0, n - len(s))
        else:
            it.event('symalloc', n=n, et=None)
            this.v = Sym(('resized', key_of(s), key_of(n)))
        return None

    def str_remove_prefix(self, it, fd, this, a, e):
        s = strval(it, this)
        n = rv(a[0])
        this.v = s[n:] if isinstance(s, str) and isinstance(n, int) else Sym(('drop', key_of(s), key_of(n)))
        return None

    def str_remove_suffix(self, it, fd, this, a, e):
        s = strval(it, this)
        n = rv(a[0])
        this.v = s[:len(s) - n] if isinstance(s, str) and isinstance(n, int) else Sym(('dropr', key_of(s), key_of(n)))
        return None

    def str_insert(self, it, fd, this, a, e):
        s = strval(it, this)
        i = rv(a[0])
        if isinstance(i, Iter):
            i = i.i
        x = strval(it, a[-1])
        if isinstance(s, str) and isinstance(i, int) and isinstance(x, str):
            this.v = s[:i] + x + s[i:]
        else:
            this.v = Sym(('insert', key_of(s), key_of(i), key_of(x)))
        return this

    def str_erase(self, it, fd, this, a, e):
        s = strval(it, this)
        i = rv(a[0]) if a else 0
        n = rv(a[1]) if len(a) > 1 else None
        if isinstance(s, str) and isinstance(i, int):
            this.v = s[:i] + (s[i + n:] if isinstance(n, int) else '')
        else:
            this.v = Sym(('erase', key_of(s), key_of(i), key_of(n)))
        return this

    def str_copy(self, it, fd, this, a, e):
        return Sym(('copied',))

    def str_op(self, name, it, fd, this, a, e):
        if name == 'operator[]':
            s = rv(this)
            i = rv(a[0])
            if isinstance(s, Sym):
                c = s.fields.get(('[]', key_of(i)))
                if c is None:
                    c = s.fields[('[]', key_of(i))] = Cell(Sym(('[]', s.t, key_of(i))))
                it.event('stridx', s=s, i=i)
                return c
            return it.index(strval(it, s), i)
        if name == 'operator=':
            x = a[0]
            self_assign = x is this
            v = strval(it, x)
            this.v = v
            if not self_assign and fd.moveassign and isinstance(x, Cell) and 'view' not in fd.q and 'StringRef' not in fd.q:
                x.v = ''
            return this
        if name == 'operator+=':
            it.event('append', what=strval(it, a[0]))
            this.v = concat([strval(it, this), strval(it, a[0])])
            return this
        if name in ('operator==', 'operator!='):
            r = equal(it, strval(it, this), strval(it, a[0]))
            return int(r if name == 'operator==' else not r)
        if fd.conv:
            return strval(it, this)
        return NotImplemented

    def str_conv(self, it, fd, this, a, e):
        return strval(it, this)

    # ---- maps ----
    def map_of(self, it, this):
        v = rv(this)
        if isinstance(v, Map):
            return v
        if isinstance(v, Sym):
            return None
        if v is UNINIT:
            this.v = Map()
            this.v.n = None
            return this.v
        raise Broken('map operation on %r at %s' % (v, it.where()))

    def map_find_key(self, it, m, k):
        """Stored hash key equivalent to k, or None."""
        n = getattr(m, 'n', None)
        kv = rv(k)
        if n is not None and n[0] in ('less', 'eq'):
            fd = n[2]
            keys = m.k.items()
            if n[0] == 'eq' and n[3] is not None:
                # equal keys are only found when their hashes agree
                hc = key_of(rv(it.call_fn(n[3][1], Cell(n[3][0]), [Cell(kv)])))
                if m.hb is None:
                    m.hb = {}
                for h, stored in keys if len(m.hb) != len(m.k) else ():
                    if h not in m.hb:
                        m.hb[h] = key_of(rv(it.call_fn(n[3][1], Cell(n[3][0]), [Cell(stored)])))
                        m.bk.setdefault(m.hb[h], []).append(h)
                keys = [(h, m.k[h]) for h in m.bk.get(hc, ()) if h in m.k]
            for h, stored in keys:
                if n[0] == 'eq':
                    if it.decide(rv(it.call_fn(fd, Cell(n[1]), [Cell(stored), Cell(kv)]))):
                        return h
                else:
                    if not it.decide(rv(it.call_fn(fd, Cell(n[1]), [Cell(stored), Cell(kv)]))) and \
                            not it.decide(rv(it.call_fn(fd, Cell(n[1]), [Cell(kv), Cell(stored)]))):
                        return h
            return None
        if n is not None and n[0] == 'deflt' and has_float(kv):
            for h, stored in m.k.items():
                if not less(it, stored, kv) and not less(it, kv, stored):
                    return h
            return None
        h = self.hash(kv)
        if h in m.d:
            return h
        if isinstance(kv, Sym) and m.d:
            # opaque key: may equal any stored key
            for h2, stored in m.k.items():
                if it.decide(Sym(('==', key_of(kv), key_of(stored)))):
                    return h2
            return None
        for h2, stored in m.k.items():
            if isinstance(stored, Sym) and it.decide(Sym(('==', key_of(kv), key_of(stored)))):
                return h2
        return None

    def hash(self, v):
        h = hkey(v)
        if has_float(v):
            return ('f', repr(h))
        return h

    def fresh_key(self, m, k):
        h = self.hash(k)
        i = 0
        while h in m.d:
            i += 1
            h = ('#', self.hash(k), i)
        return h

    def map_put(self, it, m, k, v):
        h = self.map_find_key(it, m, k)
        if h is not None:
            return h, False
        h = self.fresh_key(m, k)
        m.k[h] = it.copy(k)
        m.d[h] = Cell(v)
        return h, True

    def map_cell(self, m, h):
        c = m.d[h]
        if c.tag is not None and c.tag[0] == 'pair':
            return c.tag[1]
        if c.tag is None and getattr(c, 'v', None) is None and m.k.get(h) is not None and isinstance(m, Map) and getattr(m, 'isset', False):
            return Cell(m.k[h])
        p = Cell(mkpair(Cell(m.k[h]), c))
        c.tag = ('pair', p)
        return p

    def map_keys(self, it, m):
        n = getattr(m, 'n', None)
        ks = list(m.d)
        if n is not None and n[0] == 'deflt':
            try:
                ks.sort(key=functools.cmp_to_key(lambda x, y: -1 if less(it, m.k[x], m.k[y]) else (1 if less(it, m.k[y], m.k[x]) else 0)))
            except Broken:
                pass
        return ks

    def is_set(self, fd):
        return strip_targs(fd.cls.q or fd.cls.s) in SETS if fd.cls is not None else 'set' in strip_targs(fd.q).rsplit('::', 1)[0]

    def map_find(self, it, fd, this, a, e):
        m = self.map_of(it, this)
        if m is None:
            return self.sym_call(it, fd, this, a)
        h = self.map_find_key(it, m, a[0])
        return Iter('m', m, h)

    def map_count(self, it, fd, this, a, e):
        m = self.map_of(it, this)
        if m is None:
            return self.sym_call(it, fd, this, a)
        return int(self.map_find_key(it, m, a[0]) is not None)

    map_contains = map_count

    def map_end(self, it, fd, this, a, e):
        m = self.map_of(it, this)
        if m is None:
            return self.sym_call(it, fd, this, a)
        return Iter('m', m, None)

    def map_begin(self, it, fd, this, a, e):
        m = self.map_of(it, this)
        if m is None:
            return self.sym_call(it, fd, this, a)
        ks = self.map_keys(it, m)
        return Iter('m', m, ks[0] if ks else None)

    map_cend = map_end
    map_cbegin = map_begin

    def map_swap(self, it, fd, this, a, e):
        this.v, a[0].v = a[0].v, this.v
        return None

    def map_lower_bound(self, it, fd, this, a, e):
        m = self.map_of(it, this)
        if m is None:
            return self.sym_call(it, fd, this, a)
        if getattr(m, 'n', None) is None or m.n[0] != 'deflt':
            raise Broken('%s of a map with its own order at %s' % (fd.n, it.where()))
        k = rv(a[0])
        for h in self.map_keys(it, m):
            x = m.k[h]
            if (less(it, k, x) if fd.n == 'upper_bound' else not less(it, x, k)):
                return Iter('m', m, h)
        return Iter('m', m, None)

    map_upper_bound = map_lower_bound

    def map_size(self, it, fd, this, a, e):
        m = self.map_of(it, this)
        return len(m.d) if m is not None else self.sym_call(it, fd, this, a)

    def map_empty(self, it, fd, this, a, e):
        m = self.map_of(it, this)
        return int(not m.d) if m is not None else Sym(('==', ('call', 'size', rv(this).t), 0))

    def map_clear(self, it, fd, this, a, e):
        m = self.map_of(it, this)
        if m is None:
            this.v = Map()
            this.v.n = None
            return None
        m.hb, m.bk = None, {}
        m.d.clear()
        m.k.clear()
        return None

    def map_reserve(self, it, fd, this, a, e):
        it.event('reserve', n=rv(a[0]), et=None)
        return None

    def val_type(self, fd):
        ta = [x for x in (fd.cls.ta or []) if x[0] == 't'] if fd.cls is not None else []
        k = 2 if fd.cls is not None and strip_targs(fd.cls.q or '') == 'llvm::DenseMapBase' else 1
        return ta[k][1] if len(ta) > k else None

    def map_op(self, name, it, fd, this, a, e):
        if name == 'operator[]':
            m = self.map_of(it, this)
            if m is None:
                return it.index(rv(this), rv(a[0]))
            k = it.copy(rv(a[0]))
            h = self.map_find_key(it, m, k)
            if h is None:
                vt = self.val_type(fd)
                h, _ = self.map_put(it, m, k, it.zero_value(vt) if vt is not None else UNINIT)
            return m.d[h]
        if name == 'operator=':
            x = a[0]
            v = rv(x)
            mv = fd.moveassign or (fd.p and fd.p[0].rv)
            n = getattr(rv(this), 'n', None) if isinstance(rv(this), Map) else None
            if isinstance(v, Map):
                nm = Map()
                nm.n = getattr(v, 'n', n)
                nm.d = {k: Cell(it.copy(c.v)) for k, c in v.d.items()}
                nm.k = dict(v.k)
                this.v = nm
                if mv and isinstance(x, Cell) and x is not this:
                    m0 = Map()
                    m0.n = getattr(v, 'n', None)
                    x.v = m0
            elif isinstance(v, Vec):
                nm = Map()
                nm.n = n
                for c in v.c:
                    self.map_put(it, nm, c.v.f['first'].v, c.v.f['second'].v)
                this.v = nm
            else:
                this.v = v
            return this
        if name in ('operator==', 'operator!='):
            x, y = rv(this), rv(a[0])
            r = set(x.d) == set(y.d) and all(equal(it, x.d[k], y.d[k]) for k in x.d)
            return int(r if name == 'operator==' else not r)
        return NotImplemented

    def map_at(self, it, fd, this, a, e):
        m = self.map_of(it, this)
        if m is None:
            return it.index(rv(this), rv(a[0]))
        h = self.map_find_key(it, m, a[0])
        if h is None:
            raise CxxThrow(Sym(('exc', 'out_of_range')), self.p.types.get('std::out_of_range'), it.loc())
        return m.d[h]

    def map_emplace(self, it, fd, this, a, e):
        m = self.map_of(it, this)
        if m is None:
            it.event('symmut', what=fd.n, term=rv(this).t)
            return mkpair(Sym(('it',)), Sym(('inserted', len(it.events))))
        if self.is_set(fd):
            m.isset = True
            if len(a) == 2 and fd.n == 'insert' and isinstance(rv(a[0]), (Iter, Ptr)) and isinstance(rv(a[1]), (Iter, Ptr)):
                for c in self.range(it, a[0], a[1]):
                    h, new = self.map_put(it, m, it.copy(c.v), None)
                    m.d[h].tag = ('pair', Cell(m.k[h]))
                return None
            k = rv(a[0])
            h, new = self.map_put(it, m, k, None)
            m.d[h].tag = ('pair', Cell(m.k[h]))
            return mkpair(Iter('m', m, h), int(new))
        if len(a) == 1:
            o = rv(a[0])
            if isinstance(o, Obj) and 'first' in o.f:
                h, new = self.map_put(it, m, o.f['first'].v, it.copy(o.f['second'].v))
                return mkpair(Iter('m', m, h), int(new))
            if isinstance(o, Vec):
                for c in o.c:
                    self.map_put(it, m, c.v.f['first'].v, it.copy(c.v.f['second'].v))
                return None
        if len(a) == 2 and isinstance(rv(a[0]), (Iter, Ptr)) and isinstance(rv(a[1]), (Iter, Ptr)) and fd.n == 'insert':
            for c in self.range(it, a[0], a[1]):
                self.map_put(it, m, c.v.f['first'].v, it.copy(c.v.f['second'].v))
            return None
        k = rv(a[0])
        h0 = self.map_find_key(it, m, k)
        if h0 is not None:
            if fd.n == 'insert_or_assign':
                m.d[h0].v = it.copy(rv(a[1]))
            return mkpair(Iter('m', m, h0), 0)
        vt = self.val_type(fd)
        val = self.build_elem(it, vt, a[1:], {'a': e['a'][1:]} if e is not None else None) if vt is not None else it.copy(rv(a[1]))
        h, new = self.map_put(it, m, k, val)
        return mkpair(Iter('m', m, h), 1)

    map_insert = map_emplace
    map_try_emplace = map_emplace
    map_insert_or_assign = map_emplace

    def map_erase(self, it, fd, this, a, e):
        m = self.map_of(it, this)
        if m is None:
            it.event('symmut', what='erase', term=rv(this).t)
            return 0
        k = rv(a[0])
        if isinstance(k, Iter):
            nxt = self.adv(it, k, 1)
            m.d.pop(k.i, None)
            m.k.pop(k.i, None)
            m.hb, m.bk = None, {}
            return nxt
        h = self.map_find_key(it, m, k)
        if h is None:
            return 0
        m.d.pop(h)
        m.k.pop(h)
        m.hb, m.bk = None, {}
        return 1

    # ---- optional / variant / smart pointers / function / pair ----
    def opt_of(self, it, this):
        v = rv(this)
        return v

    def opt_has_value(self, it, fd, this, a, e):
        v = rv(this)
        if isinstance(v, Opt):
            return int(v.c is not None)
        return Sym(('has', key_of(v)))

    def opt_conv(self, it, fd, this, a, e):
        return self.opt_has_value(it, fd, this, a, e)

    def opt_value(self, it, fd, this, a, e):
        v = rv(this)
        if isinstance(v, Opt):
            if v.c is None:
                if fd.n == 'value':
                    raise CxxThrow(Sym(('exc', 'bad_optional_access')), None, it.loc())
                it.event('oob', what='access to empty optional')
                raise Abort('empty optional')
            return v.c
        return self.sym_call(it, fd, this, a)

    def opt_value_or(self, it, fd, this, a, e):
        v = rv(this)
        if isinstance(v, Opt):
            return it.copy(v.c.v) if v.c is not None else it.copy(rv(a[0]))
        return self.sym_call(it, fd, this, a)

    def opt_swap(self, it, fd, this, a, e):
        this.v, a[0].v = a[0].v, this.v
        return None

    def opt_reset(self, it, fd, this, a, e):
        this.v = Opt(None)

    def opt_emplace(self, it, fd, this, a, e):
        et = self.elem_type(fd.cls)
        this.v = Opt(Cell(self.build_elem(it, et, a, e)))
        return this.v.c

    def opt_op(self, name, it, fd, this, a, e):
        if name == 'operator*':
            return self.opt_value(it, fd, this, a, e)
        if name == 'operator->':
            c = self.opt_value(it, fd, this, a, e)
            return Ptr(c) if isinstance(c, Cell) else c
        if name == 'operator=':
            v = rv(a[0])
            if isinstance(v, Opt):
                this.v = it.copy(v)
            elif v is None and fd.p and 'nullopt' in fd.p[0].s:
                this.v = Opt(None)
            else:
                this.v = Opt(Cell(it.copy(v)))
            return this
        if name.startswith('operator bool'):
            return self.opt_has_value(it, fd, this, a, e)
        return NotImplemented

    def variant_index(self, it, fd, this, a, e):
        v = rv(this)
        if isinstance(v, Variant):
            return v.i
        return Sym(('index', key_of(v)))

    def variant_op(self, name, it, fd, this, a, e):
        if name == 'operator=':
            v = rv(a[0])
            if isinstance(v, Variant):
                this.v = it.copy(v)
                return this
            ty = fd.cls
            if isinstance(v, Sym) and v.ty is not None and strip_targs(v.ty.q or v.ty.s) == 'std::variant':
                this.v = v
                return this
            at = e['a'][0].get('t') if e is not None and e.get('a') else None
            if at is None or e.get('k') == 'mcall' and False:
                at = fd.p[0] if fd.p else None
            p0 = fd.p[0].strip() if fd.p else at
            this.v = self.variant_of(it, ty, it.copy(v), p0)
            return this
        if name in ('operator==', 'operator!='):
            r = equal(it, this, a[0])
            return int(r if name == 'operator==' else not r)
        return NotImplemented

    def variant_emplace(self, it, fd, this, a, e):
        alts = self.alts(fd.cls)
        for x in fd.ta or []:
            if x[0] == 'v':
                this.v = Variant(alts, x[1], Cell(self.build_elem(it, alts[x[1]], a, e)))
                return this.v.c
            if x[0] == 't':
                for i, t in enumerate(alts):
                    if t.s == x[1].s:
                        this.v = Variant(alts, i, Cell(self.build_elem(it, t, a, e)))
                        return this.v.c
        return NotImplemented

    def variant_valueless_by_exception(self, it, fd, this, a, e):
        return 0

    def uptr_get(self, it, fd, this, a, e):
        v = rv(this)
        if isinstance(v, UPtr):
            return v.p
        if v is UNINIT:
            return None
        return self.sym_call(it, fd, this, a) if isinstance(v, Sym) else v

    def uptr_release(self, it, fd, this, a, e):
        v = rv(this)
        this.v = UPtr(None)
        return v.p if isinstance(v, UPtr) else v

    def uptr_reset(self, it, fd, this, a, e):
        it.event('reset', ptr=rv(this))
        this.v = UPtr(rv(a[0]) if a else None)
        return None

    def uptr_conv(self, it, fd, this, a, e):
        v = rv(this)
        if isinstance(v, UPtr):
            if isinstance(v.p, Sym):
                return v.p
            return int(v.p is not None)
        if isinstance(v, Sym):
            return Sym(('call', 'get', v.t))
        return int(v is not None)

    def uptr_swap(self, it, fd, this, a, e):
        this.v, a[0].v = a[0].v, this.v
        return None

    def uptr_op(self, name, it, fd, this, a, e):
        v = rv(this)
        if name in ('operator->', 'operator*'):
            p = v.p if isinstance(v, UPtr) else (v if not isinstance(v, Sym) else self.sym_call_n(v, 'get'))
            if name == 'operator->':
                if p is None:
                    it.event('nullderef')
                    raise Abort('null unique_ptr dereference at %s' % it.where())
                return p
            return it.deref(p)
        if name == 'operator[]':
            return it.index(v.p if isinstance(v, UPtr) else v, rv(a[0]))
        if name == 'operator=':
            x = a[0]
            src = rv(x)
            it.event('uassign', ptr=v)
            if isinstance(src, UPtr):
                this.v = UPtr(src.p)
                if isinstance(x, Cell) and x is not this:
                    x.v = UPtr(None)
            elif src is None:
                this.v = UPtr(None)
            else:
                this.v = src if isinstance(src, Sym) else UPtr(src)
            return this
        if fd.conv:
            return self.uptr_conv(it, fd, this, a, e)
        return NotImplemented

    def sym_call_n(self, v, n):
        t = ('call', n, v.t)
        c = v.fields.get(t)
        if c is None:
            c = v.fields[t] = Cell(Sym(t))
        return c.v

    def func_op(self, name, it, fd, this, a, e):
        if name == 'operator()':
            f = rv(this)
            if isinstance(f, UPtr):
                f = f.p
            at = list(fd.p)
            return it.call_value(f, a, None)
        if name == 'operator=':
            v = rv(a[0])
            if isinstance(v, Ptr) and v.arr is None:
                v = v.cell.v
            this.v = it.copy(v)
            return this
        if fd.conv:
            return self.func_conv(it, fd, this, a, e)
        return NotImplemented

    def func_conv(self, it, fd, this, a, e):
        v = rv(this)
        if isinstance(v, Sym):
            return v
        return int(v is not None and v is not UNINIT)

    def pair_op(self, name, it, fd, this, a, e):
        if name == 'operator=':
            it.assign(this, a[0])
            return this
        return NotImplemented

    # ---- streams ----
    def stream_str(self, it, fd, this, a, e):
        s = rv(this)
        if a:
            s.parts[:] = [strval(it, a[0])]
            return None
        if isinstance(s, Sym):
            return Sym(('str', s.t))
        if s.target is not None:
            return s.target
        return s.text()

    def stream_op(self, name, it, fd, this, a, e):
        if name == 'operator<<':
            s = rv(this)
            if isinstance(s, Sym):
                return this
            x = rv(a[0])
            p0 = fd.p[0].strip() if fd.p else None
            if isinstance(x, FnRef) or (p0 is not None and p0.k in ('ptr', 'fn') and isinstance(x, (FnRef,))):
                return this
            if isinstance(x, (int, float)) and p0 is not None and not (p0.k == 'int' and p0.w == 8):
                t = str(x)
            elif isinstance(x, Sym):
                t = Sym(('str', x.t))
            else:
                t = strval(it, x)
            self.stream_add(it, s, t)
            return this
        if name.startswith('operator bool') or name == 'operator!':
            return Sym(('stream', id(rv(this))))
        return NotImplemented

    def stream_add(self, it, s, t):
        if isinstance(s, Sym):
            return
        s.parts.append(t)
        if s.target is not None:
            s.target.v = concat([strval(it, s.target), t])

    def stream_write(self, it, fd, this, a, e):
        s = rv(this)
        x = strval(it, a[0])
        n = rv(a[1])
        self.stream_add(it, s, x[:n] if isinstance(x, str) and isinstance(n, int) else Sym(('bytes', key_of(a[0]), key_of(n))))
        return this

    def stream_put(self, it, fd, this, a, e):
        self.stream_add(it, rv(this), chr(rv(a[0])))
        return this

    def stream_flush(self, it, fd, this, a, e):
        return this

    # ---- free functions ----
    def free_op(self, name):
        op = name[8:].strip()

        def h(it, fd, this, a, e):
            if this is not None:
                a = [this] + a
            x, y = (a + [None])[:2]
            xv, yv = rv(x), rv(y)
            if op == '<<' and (isinstance(xv, Stream) or (isinstance(xv, Sym) and 'stream' in (fd.p[0].s if fd.p else ''))):
                if isinstance(xv, Stream):
                    if isinstance(yv, FnRef):
                        return x
                    t = strval(it, yv) if not isinstance(yv, Sym) else yv
                    if isinstance(yv, int) and fd.p[1].strip().w == 8:
                        t = charof(yv)
                    self.stream_add(it, xv, t)
                return x
            if op == '+':
                if isinstance(xv, (Iter, Ptr)) or isinstance(yv, (Iter,)):
                    r = it.binop('+', xv, yv, None)
                    return r
                return concat([strval(it, x), strval(it, y)])
            if op in ('==', '!='):
                p0 = fd.p[0].strip().s if fd.p else ''
                if not isinstance(xv, (Iter, Opt, Variant, Map, UPtr)) and \
                        ('basic_string' in p0 or 'StringRef' in p0 or isinstance(xv, str) or isinstance(yv, str)):
                    sx, sy = strval(it, x), strval(it, y)
                    if isinstance(sx, str) and isinstance(sy, str):
                        r = equal(it, sx, sy)
                    else:
                        t = Sym(('==', key_of(sx), key_of(sy)))
                        return t if op == '==' else Sym(('!', t.t))
                else:
                    if isinstance(xv, UPtr):
                        xv = xv.p
                    if isinstance(yv, UPtr):
                        yv = yv.p
                    q = it.equal(xv, yv)
                    if q is None and (isinstance(xv, Sym) or isinstance(yv, Sym)):
                        t = Sym(('==', key_of(xv), key_of(yv)))
                        return t if op == '==' else Sym(('!', t.t))
                    r = equal(it, xv, yv)
                return int(r if op == '==' else not r)
            if op in ('<', '>', '<=', '>='):
                if isinstance(xv, Iter):
                    return it.arith(op, xv.i, yv.i, None)
                if op in ('<', '>='):
                    r = less(it, x, y)
                else:
                    r = less(it, y, x)
                return int(r if op in ('<', '>') else not r)
            if op == '-':
                return it.binop('-', xv, yv, None)
            if op == 'new' or op == 'new[]':
                n = xv
                it.event('alloc', n=n)
                return Sym(('opnew', key_of(n), len(it.events)))
            if op == 'delete' or op == 'delete[]':
                it.event('free', ptr=xv)
                return None
            if op in ('|', '&', '^'):
                return it.binop(op, xv, yv, fd.r)
            return NotImplemented
        return h

    def functor(self, base, it, fd, this, a, e):
        if fd.ctor:
            return None
        n = base.split('::')[-1]
        if len(a) == 2:
            x, y = a
            if n == 'less':
                return int(less(it, x, y))
            if n == 'greater':
                return int(less(it, y, x))
            if n == 'equal_to':
                return int(equal(it, x, y))
            if n == 'not_equal_to':
                return int(not equal(it, x, y))
            if n == 'less_equal':
                return int(not less(it, y, x))
            if n == 'greater_equal':
                return int(not less(it, x, y))
            op = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'bit_and': '&', 'bit_or': '|', 'bit_xor': '^'}[n]
            return it.binop(op, rv(x), rv(y), fd.r)
        if n in ('hash', '__str_hash_base'):
            v = rv(a[0])
            if isinstance(v, (int, bool)):
                return int(v)
            if isinstance(v, str):
                return int.from_bytes(hashlib.sha1(v.encode('utf-8', 'surrogatepass')).digest()[:8], 'little')
            return Sym(('hash', key_of(v)))
        if n == 'identity':
            return a[0]
        return NotImplemented

    def numeric_limits(self, it, fd, this, a, e):
        t = fd.r
        n = fd.n
        if t.k in ('int', 'bool', 'enum'):
            w = t.w or 1
            lo = -(1 << (w - 1)) if t.sg else 0
            hi = (1 << (w - 1)) - 1 if t.sg else (1 << w) - 1
            return {'max': hi, 'min': lo, 'lowest': lo}[n]
        if n == 'infinity':
            return float('inf')
        if n in ('quiet_NaN', 'signaling_NaN'):
            return float('nan')
        big = 3.4028234663852886e38 if t.w == 32 else 1.7976931348623157e308
        sml = 1.1754943508222875e-38 if t.w == 32 else 2.2250738585072014e-308
        return {'max': big, 'lowest': -big, 'min': sml}.get(n, Sym(('limit', n)))

    def f_move(self, it, fd, this, a, e):
        if len(a) == 3:
            return self.f_copy(it, fd, this, a, e)
        return a[0]

    def f_forward(self, it, fd, this, a, e):
        return a[0]

    f_as_const = f_forward
    f_move_if_noexcept = f_forward
    f_ref = f_forward
    f_cref = f_forward
    f_launder = f_forward
    f___addressof = lambda self, it, fd, this, a, e: Ptr(a[0])

    def f_addressof(self, it, fd, this, a, e):
        return Ptr(a[0]) if isinstance(a[0], Cell) else a[0]

    def f_swap(self, it, fd, this, a, e):
        a[0].v, a[1].v = a[1].v, a[0].v
        return None

    f_iter_swap = f_swap

    def f_exchange(self, it, fd, this, a, e):
        old = a[0].v
        a[0].v = it.copy(rv(a[1]))
        return old

    def f_make_unique(self, it, fd, this, a, e):
        et = fd.ta[0][1]
        return UPtr(self.heap(it, et, a, e, fd))

    def f_make_shared(self, it, fd, this, a, e):
        return self.f_make_unique(it, fd, this, a, e)

    def heap(self, it, et, a, e, fd):
        if et.k == 'arr':
            n = rv(a[0]) if a else 0
            it.event('newarr', n=n, et=et)
            if isinstance(n, int) and n <= 4096:
                return Ptr(None, [Cell(it.zero_value(et.e)) for _ in range(n)], 0)
            return Sym(('newarr', key_of(n)))
        for x in self.extra:
            r = x.make_unique(it, et, a, e)
            if r is not NotImplemented:
                return r
        rec = self.p.rec(et)
        if rec is not None:
            if not a:
                v = it.default_value(et)
            else:
                v = self.build_record(it, et, rec, a, e, fd)
        else:
            v = self.build_elem(it, et, a, e) if a else it.default_value(et)
        c = Cell(v, 'heap')
        it.event('new', cell=c)
        return Ptr(c)

    def build_record(self, it, et, rec, a, e, fd):
        n = rec.q.split('::')[-1].split('<')[0]
        c = [f.decl for f in self.p.by_q.get(rec.q + '::' + n, []) if f.decl.ctor and f.decl.cls is not None]
        c = [d for d in c if it.unconst(d.cls).s == it.unconst(et).s]
        npar = len(a)
        argt = [x.get('t') for x in e['a']] if e is not None else [None] * npar

        def defaults_ok(d):
            return len(d.p) == npar or (len(d.p) > npar)
        cand = [d for d in c if len(d.p) == npar] or [d for d in c if len(d.p) > npar]
        if npar == 1 and not isinstance(rv(a[0]), Obj):
            cand = [d for d in cand if not (d.copyctor or d.movector)] or cand

        def score(d):
            s = 0
            for p, t, x in zip(d.p, argt, a):
                if t is None:
                    continue
                ps, ts = p.strip(), t.strip()
                if ps.s.replace('const ', '') == ts.s.replace('const ', ''):
                    s += 3
                elif ps.k == ts.k and ps.k in ('int', 'enum', 'flt', 'bool'):
                    s += 2
                elif strip_targs(ps.s.replace('const ', '')) == strip_targs(ts.s.replace('const ', '')):
                    s += 2
                elif ps.k == 'rec' and ts.k == 'rec':
                    s += 0
                elif ps.k in ('int', 'flt', 'bool') and ts.k in ('int', 'flt', 'bool', 'enum'):
                    s += 1
                elif ps.k == 'rec':
                    s += 0
                else:
                    s -= 1
            # overload on rvalue reference when a value is moved in
            return s
        if not cand and any(d.copyctor or d.movector for d in c):
            cand = [d for d in c if d.copyctor or d.movector]
        if not cand:
            if npar == 1 and isinstance(rv(a[0]), Obj):
                return it.copy(rv(a[0]))
            raise Broken('no constructor of %s for %d arguments at %s' % (rec.q, npar, it.where()))
        cand.sort(key=score, reverse=True)
        d = cand[0]
        if d.copyctor or d.movector:
            if isinstance(a[0], Cell):
                return it.copy(it.load(a[0]))
        args = []
        for p, x in zip(d.p, a):
            ps = p.strip()
            v = rv(x)
            q = strip_targs(ps.q or ps.s.replace('const ', ''))
            if q in ('std::variant',) and not isinstance(v, (Variant, Sym)):
                at = argt[len(args)]
                x = Cell(self.variant_of(it, ps, it.copy(v), at))
            elif q in STR and not isinstance(v, (str, Sym)):
                x = Cell(strval(it, v))
            elif q in VEC and isinstance(v, Vec) and p.k != 'ref' and isinstance(x, Cell):
                nv = it.copy(v)
                if e is not None and self.is_move(e['a'][len(args)]):
                    it.moved(x)
                x = nv
            elif isinstance(v, UPtr) and p.k != 'ref' and isinstance(x, Cell):
                nv = UPtr(v.p)
                x.v = UPtr(None)
                x = nv
            elif isinstance(v, int) and ps.k in ('int', 'bool') and p.k != 'ref':
                x = wrap(v, ps)
            elif isinstance(v, (str, Variant, Map)) and p.k != 'ref' and isinstance(x, Cell) and e is not None and self.is_move(e['a'][len(args)]):
                nv = it.copy(v)
                it.moved(x)
                x = nv
            args.append(x)
        for k in range(len(args), len(d.p)):
            fn = self.p.funcs.get(d.key)
            dv = fn.raw['ps'][k] if fn is not None else None
            da = self.default_arg(it, d, k)
            args.append(da)
        return it.construct(et, d, args)

    def default_arg(self, it, d, k):
        fn = self.p.funcs.get(d.key)
        if fn is not None and 'da' in fn.raw and str(k) in fn.raw['da']:
            n = fn.tu.link(fn.raw['da'][str(k)])
            return it.ev(n)
        p = d.p[k].strip()
        r = it.zero_value(p)
        return r

    def f_make_pair(self, it, fd, this, a, e):
        return mkpair(it.copy(rv(a[0])), it.copy(rv(a[1])))

    def f_make_tuple(self, it, fd, this, a, e):
        return Vec([Cell(it.copy(rv(x))) for x in a])

    def f_tie(self, it, fd, this, a, e):
        return Vec(list(a))

    def f_make_optional(self, it, fd, this, a, e):
        return Opt(Cell(it.copy(rv(a[0]))))

    def f_to_string(self, it, fd, this, a, e):
        v = rv(a[0])
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            return '%f' % v
        return Sym(('to_string', key_of(v)))

    def f_stoi(self, it, fd, this, a, e):
        s = strval(it, a[0])
        it.event('throwing', what=fd.q)
        if isinstance(s, str):
            try:
                return int(s)
            except ValueError:
                raise CxxThrow(Sym(('exc', fd.n)), None, it.loc())
        return Sym((fd.n, key_of(s)))

    f_stol = f_stoll = f_stoul = f_stoull = f_stoi

    def f_min(self, it, fd, this, a, e):
        if len(a) == 1:
            cs = rv(a[0]).c
            best = cs[0]
            for c in cs[1:]:
                if less(it, c, best):
                    best = c
            return best
        x, y = rv(a[0]), rv(a[1])
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return a[1] if y < x else a[0]
        return Cell(Sym(('min', key_of(x), key_of(y))))

    def f_max(self, it, fd, this, a, e):
        if len(a) == 1:
            cs = rv(a[0]).c
            best = cs[0]
            for c in cs[1:]:
                if less(it, best, c):
                    best = c
            return best
        x, y = rv(a[0]), rv(a[1])
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return a[1] if x < y else a[0]
        return Cell(Sym(('max', key_of(x), key_of(y))))

    def f_clamp(self, it, fd, this, a, e):
        x, lo, hi = [rv(y) for y in a[:3]]
        if all(isinstance(v, (int, float)) for v in (x, lo, hi)):
            return a[1] if x < lo else (a[2] if hi < x else a[0])
        return Cell(Sym(('clamp', key_of(x), key_of(lo), key_of(hi))))

    def get_common(self, it, fd, v):
        for x in fd.ta or []:
            if x[0] == 'v':
                return int(x[1]), None
            if x[0] == 't':
                return None, x[1]
        raise Broken('std::get without template argument')

    def f_get(self, it, fd, this, a, e):
        v = rv(a[0])
        if isinstance(v, Ptr):
            v = v.target().v
        i, t = self.get_common(it, fd, v)
        if isinstance(v, Variant):
            ok = v.i == i if i is not None else v.ty.s == t.s
            if not ok:
                it.event('badget')
                raise CxxThrow(Sym(('exc', 'bad_variant_access')), self.p.types.get('std::bad_variant_access'), it.loc())
            return v.c
        if isinstance(v, Obj):
            return list(v.f.values())[i]
        if isinstance(v, Vec):
            return v.c[i]
        if isinstance(v, Sym):
            it.event('symget', term=v.t, ty=t.s if t is not None else i)
            k = ('get', t.s if t is not None else i)
            c = v.fields.get(k)
            if c is None:
                c = v.fields[k] = Cell(Sym(('get', v.t, k[1]), t))
            return c
        raise Broken('std::get on %r at %s' % (v, it.where()))

    def f_get_if(self, it, fd, this, a, e):
        p = rv(a[0])
        v = it.deref(p).v
        i, t = self.get_common(it, fd, v)
        if isinstance(v, Variant):
            ok = v.i == i if i is not None else v.ty.s == t.s
            return Ptr(v.c) if ok else None
        if isinstance(v, Sym):
            if it.decide(Sym(('holds', v.t, t.s if t is not None else i))):
                return Ptr(self.f_get(it, fd, this, [Cell(v)], e))
            return None
        raise Broken('get_if on %r' % (v,))

    def f_holds_alternative(self, it, fd, this, a, e):
        v = rv(a[0])
        i, t = self.get_common(it, fd, v)
        if isinstance(v, Variant):
            return int(v.ty.s == t.s)
        return Sym(('holds', key_of(v), t.s))

    def f_visit(self, it, fd, this, a, e):
        vis = a[0]
        v = rv(a[1])
        if isinstance(v, Sym):
            if v.ty is None:
                raise Broken('visit of untyped opaque value')
            alts = self.alts(v.ty)
            k = it.choose(len(alts), ('alt', v.t))
            v = Variant(alts, k, Cell(Sym(('alt', v.t, alts[k].s), alts[k])))
        if not isinstance(v, Variant):
            raise Broken('visit of %r at %s' % (v, it.where()))
        f = rv(vis)
        return it.call_value(f, [v.c], None, [v.ty])

    def f_invoke(self, it, fd, this, a, e):
        return it.call_value(a[0], a[1:], None)

    def f_apply(self, it, fd, this, a, e):
        return it.call_value(a[0], rv(a[1]).c, None)

    def f_begin(self, it, fd, this, a, e):
        return self.seq_iter(it, a[0], 0)

    def f_end(self, it, fd, this, a, e):
        return self.seq_iter(it, a[0], 1)

    f_cbegin = f_begin
    f_cend = f_end

    def f_rbegin(self, it, fd, this, a, e):
        return Iter('r', rv(a[0]), 0)

    def f_rend(self, it, fd, this, a, e):
        return Iter('r', rv(a[0]), len(rv(a[0]).c))

    def seq_iter(self, it, x, end):
        v = rv(x)
        if isinstance(v, Vec):
            return Iter('v', v, len(v.c) if end else 0)
        if isinstance(v, str):
            return Iter('s', v, len(v) if end else 0)
        if isinstance(v, Map):
            ks = self.map_keys(it, v)
            return Iter('m', v, None if end or not ks else ks[0])
        return Sym(('end' if end else 'begin', key_of(v)))

    def f_size(self, it, fd, this, a, e):
        v = rv(a[0])
        if isinstance(v, Vec):
            return len(v.c)
        if isinstance(v, str):
            return len(v)
        return Sym(('call', 'size', key_of(v)))

    def f_as_const(self, it, fd, this, a, e):
        return a[0]

    f_ref = f_as_const
    f_cref = f_as_const

    def f_data(self, it, fd, this, a, e):
        v = rv(a[0])
        return Ptr(None, v.c, 0) if isinstance(v, Vec) else v

    def f_next(self, it, fd, this, a, e):
        return self.adv(it, rv(a[0]), rv(a[1]) if len(a) > 1 else 1)

    def f_prev(self, it, fd, this, a, e):
        return self.adv(it, rv(a[0]), -(rv(a[1]) if len(a) > 1 else 1))

    def f_advance(self, it, fd, this, a, e):
        a[0].v = self.adv(it, rv(a[0]), rv(a[1]))

    def f_distance(self, it, fd, this, a, e):
        x, y = rv(a[0]), rv(a[1])
        if isinstance(x, Sym) or isinstance(y, Sym):
            return Sym(('-', key_of(y), key_of(x)))
        return len(self.range(it, x, y))

    def pred(self, it, f, *xs):
        r = rv(it.call_value(f, list(xs), None))
        return it.decide(r)

    def rng(self, it, a, fd):
        """Cells, and remaining arguments, of an algorithm called with (first, last, ...) or a range."""
        v = rv(a[0])
        if isinstance(v, (Vec, Map, str)):
            return self.iterate(it, a[0], None), a[1:], None
        return self.range(it, a[0], a[1]), a[2:], v

    def pos(self, it, first, i):
        return self.adv(it, first, i)

    def f_any_of(self, it, fd, this, a, e):
        cs, r, _ = self.rng(it, a, fd)
        return int(any(self.pred(it, r[0], c) for c in cs))

    def f_all_of(self, it, fd, this, a, e):
        cs, r, _ = self.rng(it, a, fd)
        return int(all(self.pred(it, r[0], c) for c in cs))

    def f_none_of(self, it, fd, this, a, e):
        cs, r, _ = self.rng(it, a, fd)
        return int(not any(self.pred(it, r[0], c) for c in cs))

    def f_find_if(self, it, fd, this, a, e):
        cs, r, first = self.rng(it, a, fd)
        neg = fd.n == 'find_if_not'
        for i, c in enumerate(cs):
            if self.pred(it, r[0], c) != neg:
                return self.pos(it, first, i)
        return rv(a[1])

    f_find_if_not = f_find_if

    def f_find(self, it, fd, this, a, e):
        cs, r, first = self.rng(it, a, fd)
        for i, c in enumerate(cs):
            if equal(it, c, r[0]):
                return self.pos(it, first, i)
        return rv(a[1])

    def f_is_contained(self, it, fd, this, a, e):
        return int(any(equal(it, c, a[1]) for c in self.iterate(it, a[0], None)))

    def f_count(self, it, fd, this, a, e):
        cs, r, _ = self.rng(it, a, fd)
        return sum(1 for c in cs if equal(it, c, r[0]))

    def f_count_if(self, it, fd, this, a, e):
        cs, r, _ = self.rng(it, a, fd)
        return sum(1 for c in cs if self.pred(it, r[0], c))

    def f_for_each(self, it, fd, this, a, e):
        cs, r, _ = self.rng(it, a, fd)
        for c in cs:
            it.call_value(r[0], [c], None)
        return rv(r[0])

    def out_put(self, it, out, v):
        """Write through an output iterator; returns the advanced iterator."""
        if isinstance(out, tuple) and out[0] == 'backins':
            vec = out[1]
            vec.v.c.append(Cell(v))
            return out
        it.deref(out).v = v
        return self.adv(it, out, 1)

    def f_back_inserter(self, it, fd, this, a, e):
        return ('backins', a[0])

    def f_transform(self, it, fd, this, a, e):
        cs = self.range(it, a[0], a[1])
        out = rv(a[2])
        if len(a) == 5:
            second = out
            out = rv(a[3])
            for c in cs:
                d = it.deref(second)
                v = rv(it.call_value(a[4], [c, d], None))
                second = self.adv(it, second, 1)
                out = self.out_put(it, out, v)
            return out
        for c in cs:
            v = rv(it.call_value(a[3], [c], None))
            out = self.out_put(it, out, v)
        return out

    def f_copy(self, it, fd, this, a, e):
        out = rv(a[2])
        for c in self.range(it, a[0], a[1]):
            v = c.v
            if fd.n == 'move' and isinstance(v, UPtr):
                c.v = UPtr(None)
            out = self.out_put(it, out, it.copy(v))
        return out

    def f_copy_n(self, it, fd, this, a, e):
        src, n, out = rv(a[0]), rv(a[1]), rv(a[2])
        for _ in range(n):
            out = self.out_put(it, out, it.copy(it.deref(src).v))
            src = self.adv(it, src, 1)
        return out

    def f_copy_if(self, it, fd, this, a, e):
        out = rv(a[2])
        for c in self.range(it, a[0], a[1]):
            if self.pred(it, a[3], c):
                out = self.out_put(it, out, it.copy(c.v))
        return out

    def f_fill(self, it, fd, this, a, e):
        for c in self.range(it, a[0], a[1]):
            c.v = it.copy(rv(a[2]))

    def f_iota(self, it, fd, this, a, e):
        v = rv(a[2])
        for c in self.range(it, a[0], a[1]):
            c.v = v
            v += 1

    def f_reverse(self, it, fd, this, a, e):
        cs = self.range(it, a[0], a[1])
        vs = [c.v for c in cs][::-1]
        for c, v in zip(cs, vs):
            c.v = v

    def f_accumulate(self, it, fd, this, a, e):
        acc = it.copy(rv(a[2]))
        for c in self.range(it, a[0], a[1]):
            if len(a) > 3:
                acc = rv(it.call_value(a[3], [Cell(acc), c], None))
            elif isinstance(acc, str):
                acc = concat([acc, strval(it, c)])
            else:
                acc = it.binop('+', acc, c.v, fd.r)
        return acc

    def f_equal(self, it, fd, this, a, e):
        xs = self.range(it, a[0], a[1])
        if len(a) >= 4 and not isinstance(rv(a[3]), (Closure, FnRef, PyFn, Obj)):
            ys = self.range(it, a[2], a[3])
            if len(xs) != len(ys):
                return 0
            rest = a[4:]
        else:
            ys = []
            p = rv(a[2])
            for _ in xs:
                ys.append(it.deref(p))
                p = self.adv(it, p, 1)
            rest = a[3:]
        for x, y in zip(xs, ys):
            if rest:
                if not self.pred(it, rest[0], x, y):
                    return 0
            elif not equal(it, x, y):
                return 0
        return 1

    def f_sort(self, it, fd, this, a, e):
        cs = self.range(it, a[0], a[1])
        vs = [c.v for c in cs]

        def lt(x, y):
            if len(a) > 2:
                return self.pred(it, a[2], Cell(x), Cell(y))
            return less(it, x, y)
        vs.sort(key=functools.cmp_to_key(lambda x, y: -1 if lt(x, y) else (1 if lt(y, x) else 0)))
        for c, v in zip(cs, vs):
            c.v = v

    f_stable_sort = f_sort

    def f_max_element(self, it, fd, this, a, e):
        cs = self.range(it, a[0], a[1])
        if not cs:
            return rv(a[1])
        b = 0
        mn = fd.n == 'min_element'
        for i in range(1, len(cs)):
            x, y = (cs[i], cs[b]) if mn else (cs[b], cs[i])
            if (self.pred(it, a[2], x, y) if len(a) > 2 else less(it, x, y)):
                b = i
        return self.pos(it, rv(a[0]), b)

    f_min_element = f_max_element

    def f_make_move_iterator(self, it, fd, this, a, e):
        return rv(a[0])

    def f_make_reverse_iterator(self, it, fd, this, a, e):
        x = rv(a[0])
        if isinstance(x, Iter) and x.kind == 'v':
            return Iter('r', x.c, len(x.c.c) - x.i)
        return Iter('ir', x, 0)

    # libc
    def f_memcmp(self, it, fd, this, a, e):
        x, y, n = rv(a[0]), rv(a[1]), rv(a[2])
        if isinstance(x, Ptr) and isinstance(y, Ptr) and isinstance(n, int):
            bx, by = self.bytes_of(it, x, n), self.bytes_of(it, y, n)
            if bx is not None and by is not None:
                return (bx > by) - (bx < by)
        return Sym(('memcmp', key_of(x), key_of(y), key_of(n)))

    def bytes_of(self, it, p, n):
        if p.arr is None:
            v = p.cell.v
            if isinstance(v, str):
                return v[:n].encode('latin1', 'replace')
            return None
        out = b''
        m = len(p.arr) - p.i
        if m <= 0 or n == 0:
            return b''
        sz = max(1, n // m) if n % m == 0 else None
        for c in p.arr[p.i:]:
            if len(out) >= n:
                break
            v = c.v
            if isinstance(v, float):
                out += struct.pack('<d' if sz in (8, None) else '<f', v)
            elif isinstance(v, int):
                out += (v & ((1 << (8 * sz)) - 1)).to_bytes(sz, 'little')
            else:
                return None
        return out[:n]

    def f_memcpy(self, it, fd, this, a, e):
        d, s, n = rv(a[0]), rv(a[1]), rv(a[2])
        it.event('memcpy', dst=d, src=s, n=n, fn=fd.n)
        if isinstance(n, int) and n > 0:
            def tgt(p):
                return p.target() if isinstance(p, Ptr) else None
            td, ts = tgt(d), tgt(s)
            if td is not None and ts is not None and (d.arr is None or len(d.arr) == 1):
                # bit copy of one scalar object
                v = ts.v
                if isinstance(v, float) and isinstance(td.v, int):
                    td.v = Sym(('bits', v))
                else:
                    td.v = it.copy(v) if not isinstance(v, str) else Sym(('bytes', key_of(s), key_of(n)))
            elif td is not None and isinstance(s, Sym):
                td.v = Sym(('bytes', s.t, n))
            elif td is not None and isinstance(s, str):
                td.v = Sym(('bytes', s, n))
        return d

    f_memmove = f_memcpy

    def f_memset(self, it, fd, this, a, e):
        it.event('memset', dst=rv(a[0]), n=rv(a[2]))
        return rv(a[0])

    def f_strlen(self, it, fd, this, a, e):
        s = strval(it, a[0])
        if isinstance(s, str):
            n = s.find(chr(0))
            head = s if n < 0 else s[:n]
            if not any(isinstance(charval(c), Sym) for c in head):
                return len(head)
            return Sym(('strlen', key_of(s)))
        return Sym(('strlen', key_of(s)))

    def f_strcmp(self, it, fd, this, a, e):
        x, y = strval(it, a[0]), strval(it, a[1])
        if isinstance(x, str) and isinstance(y, str):
            return (x > y) - (x < y)
        return Sym(('strcmp', key_of(x), key_of(y)))

    def f_malloc(self, it, fd, this, a, e):
        n = rv(a[0])
        k = it.choose(2, ('malloc', len(it.events)))
        it.event('malloc', n=n, ok=k == 0)
        if k:
            return None
        return Sym(('malloc', key_of(n), len(it.events)))

    def f_free(self, it, fd, this, a, e):
        it.event('free', ptr=rv(a[0]))
        return None

    def f_abort(self, it, fd, this, a, e):
        it.event('noreturn', what=fd.q)
        raise Abort('noreturn ' + fd.q)

    f_exit = f_terminate = f_unreachable = f___assert_fail = f___throw_bad_alloc = f_abort
    f_llvm_unreachable_internal = f_report_fatal_error = f_abort

    def f_expect(self, it, fd, this, a, e):
        return rv(a[0])

    def f_assume(self, it, fd, this, a, e):
        return None

    def f_isnan(self, it, fd, this, a, e):
        v = rv(a[0])
        return int(v != v) if isinstance(v, float) else Sym(('isnan', key_of(v)))

    def f_isdigit(self, it, fd, this, a, e):
        v = rv(a[0])
        if isinstance(v, int):
            c = chr(v & 255)
            r = {'isdigit': c.isdigit(), 'isalpha': c.isalpha(), 'isalnum': c.isalnum(), 'isspace': c in ' \t\n\r\f\v',
                 'isupper': c.isupper(), 'islower': c.islower(), 'isprint': 32 <= v < 127}[fd.n]
            return int(r)
        return Sym((fd.n, key_of(v)))

    f_isalpha = f_isalnum = f_isspace = f_isupper = f_islower = f_isprint = f_isdigit

    def f_tolower(self, it, fd, this, a, e):
        v = rv(a[0])
        if isinstance(v, int):
            c = chr(v & 255)
            return ord(c.lower() if fd.n == 'tolower' else c.upper())
        return Sym((fd.n, key_of(v)))

    f_toupper = f_tolower

    def f_ldexp(self, it, fd, this, a, e):
        return Sym((fd.n,) + tuple(key_of(x) for x in a))

    f_pow = f_exp = f_log = f_sqrt = f_floor = f_ceil = f_abs = f_fabs = f_round = f_trunc = f_fmod = f_ldexp
    f_strtod = f_strtol = f_strtoul = f_strtoll = f_strtoull = f_strtof = f_atoi = f_atof = f_ldexp
    f_from_chars = f_to_chars = f_getenv = f_hash_value = f_hash_combine = f_ldexp

    def f_setw(self, it, fd, this, a, e):
        return ''

    f_setfill = f_setprecision = f_setw

    def f_endl(self, it, fd, this, a, e):
        return a[0]
