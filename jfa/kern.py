"""Abstract interpretation of native kernels: the interpreter over the typed term domain of terms.py, with typed memory
blocks, byte views, opaque strings and the numeric part of the standard library."""
from . import terms as tm
from .interp import *
from .interp import charof, charval, isopaque, OutOfRange, OPQ
from .models import Models, rv, strval, less, equal, mkpair, strip_targs
from .prog import Broken


class BV(Sym):
    """A machine value: a term with its C++ type."""
    __slots__ = ('id',)

    def __init__(self, i, ty):
        self.t = ('bv', i)
        self.ty = ty
        self.fields = {}
        self.id = i

    def __repr__(self):
        return tm.show(self.id)


class SV(str):
    """Text of a string view, remembering where its bytes are."""
    org = None


class Arr(list):
    """A typed memory block: cells of elements of type et."""
    et = None
    label = None
    base = None
    start = 0


class Raw:
    """Fresh untyped memory."""
    handle = 'self'

    def __init__(self, n, align=16):
        self.n = n
        self.align = align
        self.views = {}


class Bits:
    """A std::bitset of n bits."""

    def __init__(self, v, n):
        self.v, self.n = v, n


class TPtr(Ptr):
    """Pointer converted to void*, remembering its element type."""
    __slots__ = ('ety',)

    def __init__(self, p, ety):
        self.cell, self.arr, self.i = p.cell, p.arr, p.i
        self.ety = ety


def isnum(t):
    return t is not None and t.k in ('int', 'bool', 'enum', 'flt')


def wid(t):
    return 1 if t.k == 'bool' else t.w


def nalign(t):
    """Alignment an object of type t needs."""
    t = t.strip()
    return (t.al or 1) if t.k == 'rec' else 1 if t.k == 'void' else nbytes(t)


def nbytes(t):
    if t.k == 'bool':
        return 1
    if isnum(t):
        return t.w // 8
    if t.k == 'ptr':
        return 8
    return t.sz


class VCell(Cell):
    """A cell of a byte view: reads and writes go to the viewed block."""
    __slots__ = ('it', 'blk', 'off', 'ty')

    def __init__(self, it, blk, off, ty):
        self.it = it
        self.blk = blk
        self.off = off
        self.ty = ty
        self.tag = None
        self.ro = False

    def spans(self):
        b = self.blk
        es = nbytes(b.et)
        o, n = self.off, nbytes(self.ty)
        while n > 0:
            k, r = divmod(o, es)
            m = min(es - r, n)
            yield b[k], r, m, es
            o += m
            n -= m

    @property
    def v(self):
        bs = ()
        for c, r, m, es in self.spans():
            x = c.v
            if x is UNINIT:
                return UNINIT
            bs += tm.bits(self.it.asbits(x, self.blk.et))[8 * r:8 * (r + m)]
        return self.it.frombits(tm.frombits(bs), self.ty)

    @v.setter
    def v(self, x):
        if x is UNINIT:
            return
        bs = tm.bits(self.it.asbits(x, self.ty))
        p = 0
        for c, r, m, es in self.spans():
            if m == es:
                nb = bs[8 * p:8 * (p + m)]
            else:
                if c.v is UNINIT:
                    raise Broken('partial write of an uninitialised element')
                ob = tm.bits(self.it.asbits(c.v, self.blk.et))
                nb = ob[:8 * r] + bs[8 * p:8 * (p + m)] + ob[8 * (r + m):]
            c.v = self.it.frombits(tm.frombits(nb), self.blk.et)
            p += m


class KInterp(Interp):
    def __init__(self, prog, models, **kw):
        super().__init__(prog, models, max_iter=200, **kw)
        self.nan = False
        self.kcmp = self.cmpvals
        self.tbool = None
        for t in prog.types.values():
            if t.k == 'bool':
                self.tbool = t

    @property
    def facts(self):
        f = self.path_state.get('facts')
        if f is None:
            f = self.path_state['facts'] = tm.Facts(self.choose, self.nan)
        return f

    # ---- values ----
    def term(self, v, t):
        if isinstance(v, BV):
            i = v.id
            if t is not None and isnum(t) and tm.W[i] != wid(t):
                if tm.W[i] == 1 and t.k != 'flt':
                    return tm.zext(i, wid(t))
                raise Broken('value of width %d used as %s at %s' % (tm.W[i], t.s, self.where()))
            return i
        if t is None:
            raise Broken('untyped constant %r at %s' % (v, self.where()))
        if t.k == 'flt':
            return tm.fconst(float(v), t.w)
        if isinstance(v, (int, float)):
            return tm.const(int(v), wid(t))
        raise Broken('%r is not a number at %s' % (v, self.where()))

    def mk(self, i, t):
        n = tm.N[i]
        if n[0] == 'c':
            return wrap(n[2], t) if t is not None and t.k != 'bool' else n[2]
        if n[0] == 'fc':
            return float(n[2])
        return BV(i, t)

    def asbits(self, v, t):
        i = self.term(v, t)
        if t.k == 'flt':
            n = tm.N[i]
            if n[0] == 'fc':
                import struct
                return tm.const(int.from_bytes(struct.pack('<f' if t.w == 32 else '<d', float(n[2])), 'little'), t.w)
            if n[0] == 'op' and n[1] == 'fbitsto':
                return n[3]
            return tm.mk(('op', 'fbits', t.w, i), t.w)
        if t.k == 'bool':
            return tm.zext(i, 8)
        return i

    def frombits(self, i, t):
        if t.k == 'flt':
            n = tm.N[i]
            if n[0] == 'op' and n[1] == 'fbits':
                return self.mk(n[3], t)
            if n[0] == 'c':
                import struct
                b = n[2].to_bytes(t.w // 8, 'little')
                return struct.unpack('<f' if t.w == 32 else '<d', b)[0]
            return self.mk(tm.mk(('op', 'fbitsto', t.w, i), t.w, True), t)
        if t.k == 'bool':
            return self.mk(tm.bit(i, 0), t)
        return self.mk(i, t)

    def conv(self, v, st, t):
        """Value v of type st converted to type t."""
        if not isinstance(v, BV):
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int) and t.k == 'flt':
                return tm.rnd(float(v), t.w)
            if isinstance(v, float):
                if t.k == 'flt':
                    return tm.rnd(v, t.w)
                if t.k == 'bool':
                    return int(v != 0)
                return wrap(int(v), t)
            return wrap(v, t)
        if st is None or not isnum(st):
            st = v.ty
        i = self.term(v, st)
        sf, tf = st.k == 'flt', t.k == 'flt'
        if sf and tf:
            r = tm.op('fpext' if t.w > st.w else 'fptrunc', t.w, i) if t.w != st.w else i
        elif sf:
            if t.k == 'bool':
                r = tm.bnot(tm.eq(i, tm.fconst(0.0, st.w)))
            else:
                r = tm.op('fptosi' if t.sg else 'fptoui', t.w, i)
        elif tf:
            sg = st.sg and st.k != 'bool'
            r = tm.op('sitofp' if sg else 'uitofp', t.w, i)
        elif t.k == 'bool':
            r = i if tm.W[i] == 1 else tm.bnot(tm.eq(i, tm.const(0, tm.W[i])))
        else:
            w, u = t.w, tm.W[i]
            sg = st.sg and st.k != 'bool'
            r = tm.trunc(i, w) if w < u else ((tm.sext if sg else tm.zext)(i, w) if w > u else i)
        return self.mk(r, t)

    def truth(self, v):
        """1-bit term of the truth value of v."""
        if tm.W[v.id] == 1 and not tm.F[v.id]:
            return v.id
        z = tm.fconst(0.0, tm.W[v.id]) if tm.F[v.id] else tm.const(0, tm.W[v.id])
        return tm.bnot(tm.eq(v.id, z))

    def decide(self, v):
        if isinstance(v, Cell):
            v = self.load(v)
        if isinstance(v, BV):
            return self.facts.decide(self.truth(v))
        if isinstance(v, Raw):
            return True
        return super().decide(v)

    def concrete(self, v, n=None):
        """Integer value of v, partitioning the trace on it when it is opaque."""
        if not isinstance(v, BV):
            return v
        f = self.facts
        i = f.sub(v.id)
        for _ in range(64):
            if tm.N[i][0] == 'c':
                break
            ls = [l for l in sorted(tm.leaves(i)) if tm.W[l] == 1 and not tm.F[l]]
            if not ls:
                break
            f.decide(ls[0])
            j = f.sub(i)
            if j == i:
                break
            i = j
        if tm.N[i][0] == 'c':
            return tm.sval(i) if v.ty is not None and v.ty.sg else tm.cval(i)
        if n is None:
            raise Broken('opaque value %s used as a size at %s' % (tm.show(i), self.where()))
        for k in range(n):
            if f.decide(tm.eq(i, tm.const(k, tm.W[i]))):
                return k
        self.event('oob', what='index %s may lie outside the %d elements' % (tm.show(v.id), n))
        raise Abort('opaque index out of range at %s' % self.where())

    def bytes_of(self, v):
        """Fresh memory used directly through the byte pointer the allocator returns."""
        if isinstance(v, Raw):
            return self.ptrcast(v, None, self.bptr())
        return v

    def bptr(self):
        return next(t for t in self.p.types.values() if t.k == 'ptr' and t.s in ('unsigned char *', 'uint8_t *'))

    def deref(self, p):
        if isinstance(p, Cell):
            p = self.load(p)
        return super().deref(self.bytes_of(p))

    FUNCTOR = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'modulus': '%', 'bit_and': '&', 'bit_or': '|', 'bit_xor': '^',
               'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!='}

    def call_value(self, c, a, e=None, argtypes=None):
        f = self.load(c) if isinstance(c, Cell) else c
        if isinstance(f, Obj) and self.p.rec(f.cls) is None and (f.cls.q or '').startswith('std::') and len(a) == 2:
            op = self.FUNCTOR.get((f.cls.q or '').split('<')[0][5:])
            x, y = rv(a[0]), rv(a[1])
            t = x.ty if isinstance(x, BV) else y.ty if isinstance(y, BV) else None
            if op is not None and t is not None and isnum(t):
                if t.k != 'flt' and t.w < 32:
                    x, y = (self.conv(v, v.ty if isinstance(v, BV) else t, self.p.types['int']) for v in (x, y))
                    t = self.p.types['int']
                return self.binop(op, x, y, t)
        return super().call_value(c, a, e, argtypes)

    # ---- operators ----
    def binop(self, op, a, b, t, e=None):
        if isinstance(a, Raw) or isinstance(b, Raw):
            if op in ('==', '!=') and (a is None or b is None or a is b):
                return int((a is b) == (op == '=='))
            a, b = self.bytes_of(a), self.bytes_of(b)
        if (isinstance(a, Ptr) or a is None) and isinstance(b, BV) and op in ('+', '-'):
            n = None
            if isinstance(a, Ptr) and a.arr is not None:
                n = len(a.arr) - a.i + 1
            return super().binop(op, a, self.concrete(b, n), t, e)
        if isinstance(a, BV) or isinstance(b, BV):
            if op in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'):
                ta = tb = None
                if e is not None and e.get('k') == 'bin':
                    ta, tb = e['a']['t'].strip(), e['b']['t'].strip()
                if ta is None or not isnum(ta):
                    ta = a.ty if isinstance(a, BV) else (b.ty if isinstance(b, BV) else t)
                if tb is None or not isnum(tb):
                    tb = b.ty if isinstance(b, BV) else ta
                return self.kbin(op, a, b, ta, tb, t)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and t is not None and t.k == 'flt' and op in '+-*/':
            if op == '/' and b == 0:
                return super().binop(op, a, b, t, e) if False else (float('nan') if a == 0 or a != a else float('inf') * (1 if a > 0 else -1))
            return tm.rnd(self.arith(op, float(a), float(b), t), t.w)
        if op in ('<<', '>>') and isinstance(b, int) and isinstance(a, int) and t is not None and isnum(t):
            if b < 0 or b >= t.w:
                self.event('shift', what='shift of a %d bit value by %d' % (t.w, b))
                raise Abort('shift out of range')
        return super().binop(op, a, b, t, e)

    def kbin(self, op, a, b, ta, tb, t):
        f = self.facts
        if op in ('<<', '>>'):
            k = self.concrete(b, ta.w) if isinstance(b, BV) else b
            w = max(wid(ta), wid(t) if t is not None and isnum(t) else 0)
            if not 0 <= k < w:
                self.event('shift', what='shift of a %d bit value by %d' % (w, k))
                raise Abort('shift out of range')
            x = self.term(a, ta)
            if tm.W[x] < w:
                x = (tm.sext if ta.sg else tm.zext)(x, w)
            return self.mk(tm.shl(x, k) if op == '<<' else tm.shr(x, k, ta.sg), t or ta)
        if wid(ta) != wid(tb) or (ta.k == 'flt') != (tb.k == 'flt'):
            # operands reached without their usual arithmetic conversions (library algorithms)
            c = self.common(ta, tb)
            a, b = self.conv(a, ta, c), self.conv(b, tb, c)
            ta = tb = c
            if not isinstance(a, BV) and not isinstance(b, BV):
                return self.arith(op, a, b, t)
        x, y = self.term(a, ta), self.term(b, tb)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            dom = 'f' if ta.k == 'flt' else ('s' if ta.sg and ta.k != 'bool' else 'u')
            if op in ('==', '!='):
                r = tm.eq(x, y)
                r = r if op == '==' else tm.bnot(r)
            elif op in ('<', '>'):
                r = tm.lt(dom, x, y) if op == '<' else tm.lt(dom, y, x)
            else:
                if op == '>=':
                    x, y = y, x
                if dom == 'f' and f.nan:
                    r = tm.bor(tm.lt(dom, x, y), tm.eq(x, y))
                else:
                    r = tm.bnot(tm.lt(dom, y, x))
            return self.mk(r, t if t is not None and t.k == 'bool' else self.tbool)
        rt = t if t is not None and isnum(t) and wid(t) == wid(ta) and (t.k == 'flt') == (ta.k == 'flt') else ta
        if ta.k == 'flt':
            n = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}.get(op)
            if n is None:
                raise Broken('operator %s on floating values' % op)
            r = tm.op(n, ta.w, x, y)
        elif op in '+-*':
            r = {'+': tm.add, '-': tm.sub, '*': tm.mul}[op](x, y)
        elif op in '/%':
            z = tm.const(0, tm.W[y])
            if tm.eq(y, z) == tm.ONE or not f.possible(('ne', 'i', y, z)):
                self.event('div0', what='integer division by zero')
                raise Abort('division by zero')
            if tm.eq(y, z) != tm.ZERO:
                q = tm.eq(y, z)
                if tm.N[q][0] == 'eq':
                    f.assume(('ne', 'i', tm.N[q][1], tm.N[q][2]))
            r = tm.op(('s' if ta.sg else 'u') + ('div' if op == '/' else 'rem'), tm.W[x], x, y)
        else:
            r = tm.bitwise(op, x, y)
        v = self.mk(r, rt)
        if t is not None and isnum(t) and rt is not t:
            v = self.conv(v, rt, t)
        return v

    def common(self, a, b):
        """Usual arithmetic conversions."""
        if a.k == 'flt' or b.k == 'flt':
            if a.k != 'flt':
                return b
            if b.k != 'flt':
                return a
            return a if a.w >= b.w else b
        ti = self.p.types['int']

        def pr(t):
            return ti if t.k == 'bool' or t.w < 32 else t
        a, b = pr(a), pr(b)
        if a.w != b.w:
            return a if a.w > b.w else b
        return b if a.sg else a

    def unsym(self, op, v, e):
        if not isinstance(v, BV):
            return NotImplemented
        t = e['t'].strip()
        if op == '!':
            return self.mk(tm.bnot(self.truth(v)), self.tbool)
        if op == '+':
            return v
        if op == '-':
            return self.mk(tm.op('fneg', t.w, v.id) if tm.F[v.id] else tm.neg(self.term(v, t)), t)
        if op == '~':
            return self.mk(tm.frombits([tm.bnot(x) for x in tm.bits(self.term(v, t))]), t)
        return NotImplemented

    def incsym(self, op, old, e):
        if not isinstance(old, BV):
            return super().incsym(op, old, e)
        t = e['t'].strip()
        one = tm.fconst(1.0, t.w) if t.k == 'flt' else tm.const(1, wid(t))
        x = self.term(old, t)
        if t.k == 'flt':
            return self.mk(tm.op('fadd' if op == '++' else 'fsub', t.w, x, one), t)
        return self.mk((tm.add if op == '++' else tm.sub)(x, one), t)

    def convsym(self, ck, v, t, e):
        st = e['e'].get('t')
        st = st.strip() if st is not None else None
        if isinstance(v, BV):
            if ck in ('IntegralCast', 'BooleanToSignedIntegral', 'IntegralToBoolean', 'FloatingCast', 'FloatingToIntegral',
                      'IntegralToFloating', 'FloatingToBoolean'):
                return self.conv(v, st, t)
            return v
        if ck == 'FloatingCast' and isinstance(v, (int, float)):
            return tm.rnd(float(v), t.w)
        if ck == 'BitCast':
            if isinstance(v, Raw) or isinstance(v, Ptr):
                return self.ptrcast(v, st, t)
        return NotImplemented

    def ptrcast(self, v, st, t):
        if t.k != 'ptr':
            return v
        te = t.e
        if isinstance(v, Raw):
            if te.k == 'void' or te.s in ('void', 'const void'):
                return v
            key = self.unconst(te).s
            a = v.views.get('first')
            if a is None:
                n = nbytes(te)
                if v.align % nalign(te):
                    self.event('oob', what='memory aligned to %d bytes used for %s' % (v.align, te.s))
                a = Arr()
                a.et = self.unconst(te)
                a.label = 'arena'
                a.extend(Cell(self.default_value(a.et), key) for _ in range(v.n // n))
                v.views['first'] = a
            return self.view(Ptr(None, a, 0), te)
        if te.s.replace('const ', '') == 'void':
            ety = v.ety if isinstance(v, TPtr) else (st.e if st is not None and st.k == 'ptr' else None)
            return TPtr(v, ety)
        return self.view(v, te, st)

    def view(self, p, te, st=None):
        """p as a pointer to elements of type te."""
        te = self.unconst(te)
        if not isnum(te):
            return p
        if p.arr is None:
            ety = p.ety if isinstance(p, TPtr) else (st.e if st is not None and st.k == 'ptr' else None)
            if ety is None or not isnum(ety) or nbytes(ety) == nbytes(te) and (ety.k == 'flt') == (te.k == 'flt'):
                return p
            a = Arr([p.cell])
            a.et = self.unconst(ety)
            p = Ptr(None, a, 0)
        a = p.arr
        if not isinstance(a, Arr):
            ety = p.ety if isinstance(p, TPtr) else (st.e if st is not None and st.k == 'ptr' else None)
            if ety is None or not isnum(ety) or nbytes(ety) == nbytes(te) and (ety.k == 'flt') == (te.k == 'flt') and ety.sg == te.sg:
                return p
            d = self.path_state.setdefault('wrapped', {})
            k = id(a)
            if k not in d:
                b = Arr(a)
                b.et = self.unconst(ety)
                d[k] = (a, b)
            a = d[k][1]
        if a.et is None or not isnum(a.et):
            return p
        if a.et.s == te.s or (nbytes(a.et) == nbytes(te) and a.et.k == te.k and a.et.sg == te.sg):
            return Ptr(None, a, p.i)
        root = a.base if a.base is not None else a
        off = (a.start if a.base is not None else 0) + p.i * nbytes(a.et)
        es = nbytes(te)
        if root.et.s == te.s and off % es == 0:
            return Ptr(None, root, off // es)
        st0 = off % es
        d = self.path_state.setdefault('views', {})
        k = (id(root), te.s, st0)
        if k not in d:
            v = Arr()
            v.et = te
            v.label = root.label
            v.base = root
            v.start = st0
            total = len(root) * nbytes(root.et)
            v.extend(VCell(self, root, o, te) for o in range(st0, total - es + 1, es))
            d[k] = (root, v)
        return Ptr(None, d[k][1], (off - st0) // es)

    def e_casg(self, e):
        b = self.rv(e['b'])
        c = self.lval(e['a'])
        a = self.load(c)
        if not isinstance(a, BV) and not isinstance(b, BV):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                lt = e['a']['t'].strip()
                ct = e.get('ct') or e['t'].strip()
                r = self.binop(e['op'][:-1], self.conv(a, lt, ct), b, ct)
                c.v = self.conv(r, ct, lt)
                return c
            return self.apply_casg(e, c, a, b)
        if isinstance(a, (Ptr, Iter)) or a is None:
            c.v = self.binop(e['op'][:-1], a, b, None)
            return c
        lt = e['a']['t'].strip()
        ct = e.get('ct') or e['t'].strip()
        op = e['op'][:-1]
        x = self.conv(a, lt, ct)
        if not isinstance(x, BV) and not isinstance(b, BV):
            r = self.arith(op, x, b, ct)
        else:
            r = self.kbin(op, x, b, ct, b.ty if isinstance(b, BV) and op in ('<<', '>>') else ct, ct)
        c.v = self.conv(r, ct, lt)
        return c

    def apply_casg(self, e, c, a, b):
        ct = e.get('ct') or e['t']
        op = e['op'][:-1]
        r = self.binop(op, a, b, ct if not isinstance(a, Ptr) else None, e)
        c.v = wrap(r, e['t']) if isinstance(r, int) else r
        return c

    def lit(self, e):
        while e is not None and e['k'] in ('cast', 'paren') and isnum(e.get('t')):
            e = e['e']
        return self.e_int(e) if e is not None and e['k'] == 'int' else None

    def e_cond(self, e):
        v = self.rv(e['c'])
        if isinstance(v, BV):
            x, y = self.lit(e['a']), self.lit(e['b'])
            t = e['t'].strip()
            if x is not None and y is not None and isnum(t) and t.k != 'flt' and {x, y} == {0, 1}:
                b = self.truth(v)
                b = self.facts.sub(b if x else tm.bnot(b))
                return self.mk(tm.zext(b, t.w) if t.k != 'bool' else b, t)
        if self.decide(v):
            return self.ev(e['a'])
        return self.ev(e['b'])

    def e_bin(self, e):
        if e['op'] in ('&&', '||'):
            a = self.rv(e['a'])
            k = self.decide(a)
            if k == (e['op'] == '||'):
                return int(k)
            return int(self.decide(self.rv(e['b'])))
        return super().e_bin(e)

    def load(self, c):
        if not isinstance(c, Cell):
            return c
        v = c.v
        if v is UNINIT:
            self.event('uninit', what='read of uninitialised %s' % (c.tag or 'memory'))
            raise Abort('uninitialised read at %s' % self.where())
        return v

    def index(self, a, i):
        a = self.bytes_of(a)
        if a is None:
            self.event('nullderef')
            raise Abort('null dereference at %s' % self.where())
        if isinstance(i, BV):
            if isinstance(a, Vec):
                a = Ptr(None, a.c, 0)
            if isinstance(a, Ptr):
                a = self.textarr(a)
                i = self.concrete(i, len(a.arr) - a.i if a.arr is not None else 1)
            elif isinstance(a, str):
                i = self.concrete(i, len(a) + 1)
        return super().index(a, i)

    def bind(self, ty, a, name=None):
        c = super().bind(ty, a, name)
        if ty is not None and isnum(ty):
            v = c.v
            if isinstance(v, BV) and v.ty is not None and isnum(v.ty) and (wid(v.ty) != wid(ty) or (v.ty.k == 'flt') != (ty.k == 'flt')):
                c.v = self.conv(v, v.ty, ty)
            elif isinstance(v, int) and ty.k == 'flt':
                c.v = self.conv(v, None, ty)
        return c

    def switch(self, s):
        if 'init' not in s and 'var' not in s:
            v = self.rv(s['c'])
            if isinstance(v, BV):
                n = None
                i = self.facts.sub(v.id)
                hi = tm.rng('u', i)[1]
                n = hi + 1 if hi < 64 else None
                k = self.concrete(v, n)
                s2 = dict(s)
                s2['c'] = {'k': 'int', 'v': k, 't': s['c']['t']}
                return super().switch(s2)
        return super().switch(s)

    # ---- comparisons used by the library models ----
    def cmpvals(self, op, a, b):
        if isinstance(a, BV) or isinstance(b, BV):
            ta = a.ty if isinstance(a, BV) else b.ty
            tb = b.ty if isinstance(b, BV) else a.ty
            if not (isinstance(a, (BV, int, float)) and isinstance(b, (BV, int, float))):
                return NotImplemented
            return self.decide(self.kbin(op, a, b, ta, tb, None))
        if isinstance(a, str) and isinstance(b, str) and (isopaque(a) or isopaque(b)):
            if op == '==':
                return len(a) == len(b) and all(self.chareq(x, y) for x, y in zip(a, b))
            return self.strcmp(a, b) < 0
        return NotImplemented

    def charterm(self, c):
        v = charval(c)
        return v.id if isinstance(v, BV) else tm.const(v, 8)

    def chareq(self, x, y):
        return x == y or self.facts.decide(tm.eq(self.charterm(x), self.charterm(y)))

    def strcmp(self, a, b):
        for x, y in zip(a, b):
            if self.chareq(x, y):
                continue
            return -37 if self.facts.decide(tm.lt('u', self.charterm(x), self.charterm(y))) else 37
        return (len(a) > len(b)) * 37 - (len(a) < len(b)) * 37


FM1 = ('exp', 'log', 'log2', 'log10', 'ceil', 'floor', 'round', 'trunc', 'sqrt', 'sin', 'cos', 'fabs', 'nearbyint', 'rint', 'exp2',
       'log1p', 'expm1')


class KModels(Models):
    def __init__(self, prog, extra=()):
        super().__init__(prog, extra)
        for n in FM1:
            for s in ('', 'f', 'l'):
                self.free[n + s] = self.f_math
        self.free.update(__popcountdi2=self.f_popcount, popcount=self.f_popcount, popcountl=self.f_popcount, popcountll=self.f_popcount)

    def incdec(self, it, old, op):
        if old is None:
            # one step from a null pointer: not to be read through
            return Ptr(None, Arr(), 1 if op == '++' else -1)
        return super().incdec(it, old, op)

    # ---- std::bitset ----
    def construct(self, it, ty, f, a, e):
        q = ty.q or ''
        if q.startswith('std::bitset'):
            n = int(ty.s.split('<')[1].split('>')[0].rstrip('ULul'))
            src = rv(a[0]) if a else 0
            if isinstance(src, Bits):
                return Bits(src.v, src.n)
            if not n <= 64 or isinstance(src, (str, Ptr)):
                return NotImplemented
            x = it.term(src, f.p[0].strip()) if a else tm.const(0, 64)
            return Bits((tm.trunc if tm.W[x] > n else tm.zext)(x, n) if tm.W[x] != n else x, n)
        return super().construct(it, ty, f, a, e)

    def _find(self, fd):
        if fd.q.startswith('std::bitset'):
            return self.bitset
        return super()._find(fd)

    def bitset(self, it, fd, this, a, e):
        b, n = this.v, fd.n
        if not isinstance(b, Bits):
            return NotImplemented

        def idx():
            k = it.concrete(rv(a[0]), b.n)
            if not 0 <= k < b.n:
                it.event('oob', what='bit %s of a bitset of %d' % (k, b.n))
                raise Abort('bitset index')
            return k
        if n == 'count':
            return it.mk(tm.zext(tm.popcount(b.v, 32), fd.r.w), fd.r)
        if n == 'size':
            return b.n
        if n in ('any', 'none', 'all'):
            want = tm.const((1 << b.n) - 1 if n == 'all' else 0, b.n)
            return int(it.facts.decide(tm.eq(b.v, want)) == (n != 'any'))
        if n in ('test', 'operator[]') and (fd.r.k == 'bool' or n == 'test'):
            return int(it.facts.decide(tm.bit(b.v, idx())))
        if n in ('to_ulong', 'to_ullong'):
            return it.mk(tm.zext(b.v, 64) if b.n < 64 else b.v, fd.r)
        return NotImplemented

    def adv(self, it, x, n):
        x = it.bytes_of(x)
        if x is None and n == 0:
            return None
        if isinstance(n, BV):
            return it.binop('+', x, n, None)
        return super().adv(it, x, n)

    def range(self, it, a, b):
        return super().range(it, Cell(it.bytes_of(rv(a))), Cell(it.bytes_of(rv(b))))

    def pred(self, it, f, *xs):
        v = rv(f)
        q = (v.cls.q or v.cls.s).split('<')[0] if isinstance(v, Obj) else ''
        if q.startswith('std::') and len(xs) == 2:
            n = q.split('::')[-1]
            x, y = xs
            if n in ('greater', 'less_equal'):
                x, y = y, x
            if n in ('less', 'greater'):
                return less(it, x, y)
            if n in ('less_equal', 'greater_equal'):
                return not less(it, x, y)
            if n in ('equal_to', 'not_equal_to'):
                return equal(it, x, y) == (n == 'equal_to')
        return super().pred(it, f, *xs)

    def math_name(self, n):
        return n if n in FM1 else n[:-1]

    def f_math(self, it, fd, this, a, e):
        v = rv(a[0])
        st = fd.p[0].strip()
        t = fd.r
        if not isinstance(v, BV):
            v2 = it.conv(v, st, t)
            x = tm.fconst(v2, t.w)
        else:
            x = it.term(it.conv(v, v.ty, t), t)
        return it.mk(tm.op('fm:' + self.math_name(fd.n), t.w, x), t)

    def f_abs(self, it, fd, this, a, e):
        v = rv(a[0])
        if not isinstance(v, BV):
            return abs(v)
        t = fd.r
        x = it.term(v, t)
        if t.k == 'flt':
            return it.mk(tm.op('fm:fabs', t.w, x), t)
        return it.mk(tm.neg(x), t) if it.facts.decide(tm.lt('s', x, tm.const(0, t.w))) else v

    def f_isnan(self, it, fd, this, a, e):
        v = rv(a[0])
        if isinstance(v, BV):
            if not tm.F[v.id]:
                return 0
            return int(it.facts.isnan(v.id)) if tm.N[v.id][0] == 'fv' else int(not it.facts.decide(tm.eq(v.id, v.id)))
        return int(v != v)

    def f_popcount(self, it, fd, this, a, e):
        v = rv(a[0])
        t = fd.p[0].strip()
        if not isinstance(v, BV):
            return bin(v & ((1 << t.w) - 1)).count('1')
        return it.mk(tm.popcount(it.term(v, t), 32), fd.r)

    def f_ctz(self, it, fd, this, a, e):
        v = rv(a[0])
        t = fd.p[0].strip()
        i = it.term(v, t)
        n = fd.n
        order = range(t.w) if 'ctz' in n or 'r_zero' in n or 'ffs' in n else range(t.w - 1, -1, -1)
        for k, j in enumerate(order):
            if it.facts.decide(tm.bit(i, j)):
                return k + ('ffs' in n)
        return t.w if '_zero' in n else 0

    f_ctzl = f_ctzll = f_clz = f_clzl = f_clzll = f_countr_zero = f_countl_zero = f_ffs = f_ffsll = f_ctz

    # ---- min / max ----
    def f_min(self, it, fd, this, a, e):
        if len(a) == 1:
            return super().f_min(it, fd, this, a, e)
        x, y = a[0], a[1]
        if len(a) > 2:
            return y if self.pred(it, a[2], y, x) else x
        return y if less(it, y, x) else x

    def f_max(self, it, fd, this, a, e):
        if len(a) == 1:
            return super().f_max(it, fd, this, a, e)
        x, y = a[0], a[1]
        if len(a) > 2:
            return y if self.pred(it, a[2], x, y) else x
        return y if less(it, x, y) else x

    def f_clamp(self, it, fd, this, a, e):
        return a[1] if less(it, a[0], a[1]) else (a[2] if less(it, a[2], a[0]) else a[0])

    def f_minmax_element(self, it, fd, this, a, e):
        cs = self.range(it, a[0], a[1])
        lo = hi = 0
        for i in range(1, len(cs)):
            if less(it, cs[i], cs[lo]):
                lo = i
            if not less(it, cs[i], cs[hi]):
                hi = i
        return mkpair(self.pos(it, rv(a[0]), lo), self.pos(it, rv(a[0]), hi))

    # ---- ordering ----
    def ltf(self, it, a, k):
        if len(a) <= k:
            return lambda x, y: less(it, x, y)
        return lambda x, y: self.pred(it, a[k], Cell(x), Cell(y))

    def sorted_by(self, it, vs, lt):
        out = []
        for v in vs:
            # insertion keeps equal elements in order and asks few questions
            i = len(out)
            while i > 0 and lt(v, out[i - 1]):
                i -= 1
            out.insert(i, v)
        return out

    def f_sort(self, it, fd, this, a, e):
        cs = self.range(it, a[0], a[1])
        lt = self.ltf(it, a, 2)
        vs = [it.load(c) for c in cs]
        if len(a) > 2 and vs and lt(vs[0], vs[0]):
            it.event('order', what='comparator is not irreflexive')
        vs = self.sorted_by(it, vs, lt)
        for c, v in zip(cs, vs):
            c.v = v

    f_stable_sort = f_sort

    def f_partial_sort(self, it, fd, this, a, e):
        self.f_sort(it, fd, this, [a[0], a[2]] + a[3:], e)

    def f_nth_element(self, it, fd, this, a, e):
        """The n-th element is in place, nothing greater before it and nothing smaller after it; the order on either side
        is unspecified (reversed here)."""
        cs = self.range(it, a[0], a[2])
        n = len(self.range(it, a[0], a[1]))
        vs = self.sorted_by(it, [it.load(c) for c in cs], self.ltf(it, a, 3))
        if n < len(vs):
            vs = vs[:n][::-1] + [vs[n]] + vs[n + 1:][::-1]
        for c, v in zip(cs, vs):
            c.v = v

    def f_is_sorted(self, it, fd, this, a, e):
        cs = self.range(it, a[0], a[1])
        lt = self.ltf(it, a, 2)
        return int(not any(lt(it.load(cs[i + 1]), it.load(cs[i])) for i in range(len(cs) - 1)))

    def f_lower_bound(self, it, fd, this, a, e):
        cs = self.range(it, a[0], a[1])
        up = fd.n == 'upper_bound'
        lo, hi = 0, len(cs)
        while lo < hi:
            mid = lo + (hi - lo) // 2
            c = cs[mid]
            if len(a) > 3:
                r = self.pred(it, a[3], a[2], c) if up else self.pred(it, a[3], c, a[2])
            else:
                r = less(it, a[2], c) if up else less(it, c, a[2])
            if r != up:
                lo = mid + 1
            else:
                hi = mid
        return self.pos(it, rv(a[0]), lo)

    f_upper_bound = f_lower_bound

    def f_binary_search(self, it, fd, this, a, e):
        p = self.f_lower_bound(it, fd, this, a, e)
        return int(not equal(it, p, rv(a[1])) and not less(it, a[2], it.deref(p)))

    def f_unique(self, it, fd, this, a, e):
        cs = self.range(it, a[0], a[1])
        out = []
        for c in cs:
            if not out or not (self.pred(it, a[2], Cell(out[-1]), c) if len(a) > 2 else equal(it, out[-1], c)):
                out.append(it.load(c))
        for c, v in zip(cs, out):
            c.v = v
        return self.pos(it, rv(a[0]), len(out))

    def f_remove(self, it, fd, this, a, e):
        cs = self.range(it, a[0], a[1])
        pr = fd.n == 'remove_if'
        out = [it.load(c) for c in cs if not (self.pred(it, a[2], c) if pr else equal(it, c, a[2]))]
        for c, v in zip(cs, out):
            c.v = v
        return self.pos(it, rv(a[0]), len(out))

    f_remove_if = f_remove

    # ---- sequences ----
    def out_put(self, it, out, v):
        if isinstance(out, Ptr) and isinstance(out.arr, Arr) and isinstance(v, (BV, int, float)) and isnum(out.arr.et):
            v = it.conv(v, v.ty if isinstance(v, BV) else None, out.arr.et)
        return super().out_put(it, out, v)

    def count(self, it, v):
        return it.concrete(v)

    def f_fill(self, it, fd, this, a, e):
        for c in self.range(it, a[0], a[1]):
            self.put(it, rv(a[0]), c, it.load(a[2]) if isinstance(a[2], Cell) else a[2])

    def put(self, it, p, c, v):
        if isinstance(p, Ptr) and isinstance(p.arr, Arr) and isnum(p.arr.et) and isinstance(v, (BV, int, float)):
            v = it.conv(v, v.ty if isinstance(v, BV) else None, p.arr.et)
        c.v = it.copy(v)

    def f_fill_n(self, it, fd, this, a, e):
        p = rv(a[0])
        n = it.concrete(rv(a[1]))
        v = it.load(a[2]) if isinstance(a[2], Cell) else a[2]
        for k in range(n):
            self.put(it, p, it.deref(self.adv(it, p, k)), v)
        return self.adv(it, p, n) if n > 0 else p

    def f_copy_n(self, it, fd, this, a, e):
        src, n, out = rv(a[0]), it.concrete(rv(a[1])), rv(a[2])
        for _ in range(n):
            out = self.out_put(it, out, it.copy(it.load(it.deref(src))))
            src = self.adv(it, src, 1)
        return out

    f_uninitialized_copy_n = f_copy_n

    def f_copy(self, it, fd, this, a, e):
        out = rv(a[2])
        for c in self.range(it, a[0], a[1]):
            out = self.out_put(it, out, it.copy(it.load(c)))
        return out

    f_uninitialized_copy = f_copy

    def f_reverse_copy(self, it, fd, this, a, e):
        out = rv(a[2])
        for c in self.range(it, a[0], a[1])[::-1]:
            out = self.out_put(it, out, it.copy(it.load(c)))
        return out

    def f_for_each_n(self, it, fd, this, a, e):
        p = rv(a[0])
        for k in range(it.concrete(rv(a[1]))):
            it.call_value(a[2], [it.deref(self.adv(it, p, k))], None)
        return p

    def f_iota(self, it, fd, this, a, e):
        v = rv(a[2])
        for c in self.range(it, a[0], a[1]):
            self.put(it, rv(a[0]), c, v)
            v = it.binop('+', v, 1, v.ty if isinstance(v, BV) else None) if isinstance(v, BV) else v + 1

    def f_accumulate(self, it, fd, this, a, e):
        acc = it.copy(rv(a[2]))
        t = fd.r
        for c in self.range(it, a[0], a[1]):
            if len(a) > 3:
                acc = rv(it.call_value(a[3], [Cell(acc), c], None))
            elif isinstance(acc, str):
                acc = strval(it, acc) + strval(it, c)
            else:
                acc = self.plus(it, acc, it.load(c), t)
            if isnum(t) and isinstance(acc, (BV, int, float)):
                acc = it.conv(acc, acc.ty if isinstance(acc, BV) else None, t)
        return acc

    f_reduce = f_accumulate

    def plus(self, it, acc, x, t):
        if isinstance(acc, BV) or isinstance(x, BV):
            ta = acc.ty if isinstance(acc, BV) else t
            tb = x.ty if isinstance(x, BV) else t
            c = it.common(ta, tb)
            return it.kbin('+', it.conv(acc, ta, c), it.conv(x, tb, c), c, c, c) if isinstance(it.conv(acc, ta, c), BV) or isinstance(it.conv(x, tb, c), BV) else it.arith('+', acc, x, c)
        return it.binop('+', acc, x, t)

    def f_count(self, it, fd, this, a, e):
        return super().f_count(it, fd, this, a, e)

    # ---- raw memory ----
    def blk(self, it, p, n, what):
        """(array, index, element type) behind a pointer used with n bytes."""
        if p is None:
            it.event('nullderef', what='%s of %d bytes through null' % (what, n))
            raise Abort('null %s at %s' % (what, it.where()))
        if isinstance(p, Raw):
            p = it.bytes_of(p)
        if isinstance(p, Ptr) and p.arr is None and isinstance(p.cell.v, str):
            p = it.textarr(p)
            return p.arr, p.i, it.p.types['char']
        if not isinstance(p, Ptr):
            raise Broken('%s on %r at %s' % (what, p, it.where()))
        ety = p.ety if isinstance(p, TPtr) else None
        if p.arr is None:
            return [p.cell], 0, ety
        return p.arr, p.i, p.arr.et if isinstance(p.arr, Arr) else ety

    def f_memcpy(self, it, fd, this, a, e):
        d, s = rv(a[0]), rv(a[1])
        n = it.concrete(rv(a[2]))
        if not isinstance(n, int):
            raise Broken('%s of %r bytes' % (fd.n, n))
        if n == 0:
            return d
        da, di, dt = self.blk(it, d, n, fd.n)
        sa, si, stt = self.blk(it, s, n, fd.n)
        if dt is None and stt is None:
            raise Broken('untyped %s at %s' % (fd.n, it.where()))
        dt, stt = dt or stt, stt or dt
        dn, sn = nbytes(dt), nbytes(stt)

        def chk(arr, i, es, what):
            if n > 1 << 20 or i < 0 or i * es + n > len(arr) * es:
                it.event('oob', what='%s %s %d bytes at byte %d of %d' % (fd.n, what, n, i * es, len(arr) * es))
                raise Abort('%s out of range at %s' % (fd.n, it.where()))
        chk(da, di, dn, 'writes')
        chk(sa, si, sn, 'reads')
        same = it.unconst(dt).s == it.unconst(stt).s or (dn == sn and isnum(dt) and isnum(stt) and dt.k == stt.k and dt.sg == stt.sg)
        if same and n % dn == 0:
            k = n // dn
            if fd.n == 'memcpy' and da is sa and di < si + k and si < di + k:
                it.event('overlap', what='memcpy of overlapping ranges')
            vs = [it.copy(c.v) for c in sa[si:si + k]]
            for c, v in zip(da[di:di + k], vs):
                c.v = v
            return d
        if not isnum(dt) or not isnum(stt):
            raise Broken('%s between %s and %s at %s' % (fd.n, dt.s, stt.s, it.where()))
        bs = ()
        o = si * sn
        while len(bs) < 8 * n:
            k, r = divmod(o, sn)
            v = it.load(sa[k])
            m = min(sn - r, n - len(bs) // 8)
            bs += tm.bits(it.asbits(v, stt))[8 * r:8 * (r + m)]
            o += m
        o = 0
        i = di
        while o < n:
            m = min(dn, n - o)
            if m == dn:
                da[i].v = it.frombits(tm.frombits(bs[8 * o:8 * (o + m)]), it.unconst(dt))
            else:
                old = da[i].v
                if old is UNINIT:
                    raise Broken('partial %s at %s' % (fd.n, it.where()))
                ob = tm.bits(it.asbits(old, dt))
                da[i].v = it.frombits(tm.frombits(bs[8 * o:8 * (o + m)] + ob[8 * m:]), it.unconst(dt))
            o += m
            i += 1
        return d

    f_memmove = f_memcpy

    def f_memset(self, it, fd, this, a, e):
        d = rv(a[0])
        n = it.concrete(rv(a[2]))
        x = rv(a[1])
        if n == 0:
            return d
        arr, i, t = self.blk(it, d, n, 'memset')
        if t is None:
            raise Broken('untyped memset at %s' % it.where())
        es = nbytes(t)
        if i < 0 or i * es + n > len(arr) * es:
            it.event('oob', what='memset of %d bytes at byte %d of %d' % (n, i * es, len(arr) * es))
            raise Abort('memset out of range at %s' % it.where())
        if n % es or not isinstance(x, int):
            raise Broken('memset of part of an element at %s' % it.where())
        for c in arr[i:i + n // es]:
            if isnum(t):
                c.v = it.frombits(tm.const(int.from_bytes(bytes([x & 255]) * es, 'little'), 8 * es), it.unconst(t))
            elif x == 0:
                c.v = it.zero_value(it.unconst(t))
            else:
                raise Broken('memset of %s' % t.s)
        return d

    def chars_at(self, it, p, n):
        if n == 0:
            return ''
        arr, i, t = self.blk(it, p, n, 'string read')
        es = nbytes(t) if t is not None else 1
        if es != 1:
            q = it.view(Ptr(None, arr, i), it.p.types['char'])
            arr, i = q.arr, q.i
        if i < 0 or i + n > len(arr):
            it.event('oob', what='%d characters at offset %d of %d' % (n, i, len(arr)))
            raise Abort('string read out of range at %s' % it.where())
        return ''.join(charof(it.load(c)) for c in arr[i:i + n])

    def f_memcmp(self, it, fd, this, a, e):
        n = it.concrete(rv(a[2]))
        return it.strcmp(self.chars_at(it, rv(a[0]), n), self.chars_at(it, rv(a[1]), n))

    def f_strncmp(self, it, fd, this, a, e):
        """Characters up to the first difference or zero byte; reading on past either text is reported."""
        n = it.concrete(rv(a[2])) if len(a) > 2 else 1 << 30
        for i in range(n):
            x, y = (self.chars_at(it, rv(p), i + 1)[-1:] for p in a[:2])
            if not it.chareq(x, y):
                return -37 if it.facts.decide(tm.lt('u', it.charterm(x), it.charterm(y))) else 37
            if it.chareq(x, chr(0)):
                return 0
        return 0

    f_strcmp = f_strncmp

    # ---- strings ----
    def make_str(self, it, a, a0, f):
        if len(a) >= 2 and f.p and f.p[0].k == 'ptr' and len(f.p) > 1 and f.p[1].k == 'int':
            n = it.concrete(rv(a[1]))
            if isinstance(a0, (Ptr, Raw)) or a0 is None and n:
                s = SV(self.chars_at(it, a0, n))
                s.org = a0
                return s
            if a0 is None:
                return ''
        return super().make_str(it, a, a0, f)

    def str_data(self, it, fd, this, a, e):
        s = rv(this)
        if isinstance(s, SV) and 'view' in fd.q:
            return s.org
        return super().str_data(it, fd, this, a, e)

    def str_compare(self, it, fd, this, a, e):
        s, x = strval(it, this), strval(it, a[-1])
        if isinstance(s, str) and isinstance(x, str) and len(a) == 1:
            return it.strcmp(s, x)
        raise Broken('compare with %d arguments' % len(a))

    def occ(self, it, s, x, i):
        return all(it.chareq(p, q) for p, q in zip(s[i:i + len(x)], x))

    def str_find(self, it, fd, this, a, e):
        s, x = strval(it, this), strval(it, a[0])
        if isinstance(x, Sym) and isinstance(x, BV):
            x = charof(x)
        i = it.concrete(rv(a[1])) if len(a) > 1 else 0
        for j in range(i, len(s) - len(x) + 1):
            if self.occ(it, s, x, j):
                return j
        return (1 << 64) - 1

    def str_rfind(self, it, fd, this, a, e):
        s, x = strval(it, this), strval(it, a[0])
        for j in range(len(s) - len(x), -1, -1):
            if self.occ(it, s, x, j):
                return j
        return (1 << 64) - 1

    def str_starts_with(self, it, fd, this, a, e):
        s, x = strval(it, this), strval(it, a[0])
        return int(len(x) <= len(s) and self.occ(it, s, x, 0))

    def str_ends_with(self, it, fd, this, a, e):
        s, x = strval(it, this), strval(it, a[0])
        return int(len(x) <= len(s) and self.occ(it, s, x, len(s) - len(x)))

    def f_search(self, it, fd, this, a, e):
        xs, ys = self.range(it, a[0], a[1]), self.range(it, a[2], a[3])
        for j in range(0, len(xs) - len(ys) + 1):
            if all(equal(it, p, q) for p, q in zip(xs[j:], ys)):
                return self.pos(it, rv(a[0]), j)
        return rv(a[1])

    def f_to_chars(self, it, fd, this, a, e):
        b, en, v = rv(a[0]), rv(a[1]), rv(a[2])
        t = fd.p[2].strip()
        i = it.term(it.conv(v, v.ty if isinstance(v, BV) else None, t), t)
        room = en.i - b.i
        txt = tochars(it, t, i, tuple(rv(x) for x in a[3:]))
        if len(txt) > room:
            for c in b.arr[b.i:en.i]:
                c.v = Sym(('unspecified',))
            return self.chres(it, fd.r, en, 75)
        for k, x in enumerate(txt):
            it.deref(Ptr(None, b.arr, b.i + k)).v = it.mk(x, it.p.types['char'])
        return self.chres(it, fd.r, Ptr(None, b.arr, b.i + len(txt)), 0)

    def chres(self, it, t, p, ec):
        o = Obj(t)
        o.f['ptr'] = Cell(p)
        o.f['ec'] = Cell(ec)
        return o

    def f_from_chars(self, it, fd, this, a, e):
        b, en = rv(a[0]), rv(a[1])
        n = en.i - b.i if isinstance(b, Ptr) and isinstance(en, Ptr) else 0
        s = self.chars_at(it, b, n)
        t = fd.p[2].strip()
        ok, val, used = fromchars(it, t, s, tuple(rv(x) for x in a[3:]))
        if ok:
            a[2].v = it.mk(val, t)
        return self.chres(it, fd.r, Ptr(None, b.arr, b.i + used) if isinstance(b, Ptr) else b, 0 if ok else 22)

    # ---- associative containers with opaque keys ----
    def opaque_key(self, v):
        return isinstance(v, BV) or isinstance(v, str) or isinstance(v, float)

    def map_find_key(self, it, m, k):
        kv = rv(k)
        n = getattr(m, 'n', None)
        if n is None or n[0] == 'deflt':
            for h, stored in m.k.items():
                if equal(it, stored, kv):
                    return h
            return None
        return super().map_find_key(it, m, k)


def tochars(it, t, i, fmt):
    """Text of a formatted number: a decimal rendering of a constant, else opaque characters determined by the value and
    format, of minimal or maximal length."""
    n = tm.N[i]
    if n[0] == 'c' and not fmt:
        return [tm.const(ord(c), 8) for c in str(tm.sval(i) if t.sg else tm.cval(i))]
    k = ('tochars', i, t.k, t.w, t.sg, fmt)
    d = it.path_state.setdefault('tochars', {})
    if k not in d:
        ln = {8: 4, 16: 6, 32: 11, 64: 20}[t.w] if t.k != 'flt' else {32: 15, 64: 24}[t.w]
        ln = (1, ln)[it.choose(2, k)]
        d[k] = [tm.op('tochars', 8, i, '%s%d%s%s' % (t.k, t.w, t.sg, fmt), '%d/%d' % (j, ln)) for j in range(ln)]
    return d[k]


def fromchars(it, t, s, fmt):
    k = ('fromchars', tuple(it.charterm(c) for c in s), t.k, t.w, t.sg, fmt)
    d = it.path_state.setdefault('fromchars', {})
    if k not in d:
        if not s:
            d[k] = (False, None, 0)
        elif it.choose(2, k) == 0:
            d[k] = (True, tm.op('fromchars', t.w, '%s%s%s' % (t.k, t.sg, fmt), *k[1]), it.choose(len(s), ('used',) + k) + 1)
        else:
            d[k] = (False, None, 0)
    return d[k]
