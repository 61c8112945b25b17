"""Kernel world: the native functions of the registry evaluated on opaque arguments."""
from . import terms as tm
from .cg import CG
from .kern import *
from .reg import extract
from .world import NS, NUMS, LISTS, INTS, elem, is_int, is_num


SIZED = 'first allocation reached'


class Bad(Exception):
    """Kernel result that cannot be read back."""

    def __init__(self, kind, why):
        super().__init__(why)
        self.kind = kind


def is_strct(t):
    return t is not None and t.k == 'rec'


class KW:
    def __init__(self):
        self.w = CG()
        self.p = self.w.p
        self.es = extract(self.w)
        self.km = KModels(self.p)
        self.it = KInterp(self.p, self.km)
        self.it.models.lazy = {}
        q = NS + 'Arena::Allocate'
        if not self.p.by_q.get(q):
            raise Broken('anchor %s vanished' % q)
        self.it.override[q] = self.allocate
        self.it.max_paths = 20000
        self.allocs = []
        self.sizing = False
        self.ct = self.p.types[NS + 'ExecContext']

    def allocate(self, it, fd, this, a, e):
        n = it.concrete(rv(a[0]))
        if not isinstance(n, int):
            raise Broken('arena allocation of %r bytes at %s' % (n, it.where()))
        n &= (1 << 64) - 1
        self.allocs.append(n)
        if self.sizing:
            raise Abort(SIZED)
        if n == 0:
            return None
        if n > 1 << 16:
            it.event('oob', what='allocation of %d bytes' % n)
            raise Abort('huge allocation')
        al = it.concrete(rv(a[1])) if len(a) > 1 else 16
        if not isinstance(al, int) or al < 1 or al & (al - 1):
            it.event('oob', what='memory is asked for with alignment %s' % (al,))
            al = 1
        return Raw(n, al)

    # ---- arguments ----
    def ety(self, rec):
        return self.p.rec(rec).fields[0].type.e

    def fields(self, rec):
        r = self.p.rec(rec)
        pf = [f for f in r.fields if f.type.k == 'ptr']
        lf = [f for f in r.fields if f.type.k == 'int']
        if len(pf) != 1 or len(lf) != 1:
            raise Broken('layout of %s' % rec.s)
        return pf[0], lf[0]

    def num(self, t, name):
        """Opaque number of C++ type t."""
        return BV(tm.var(name, t.w, t.k == 'flt'), t)

    def val(self, v, t):
        """Number given as a name (opaque), a Python number, or a term."""
        if isinstance(v, str):
            return self.num(t, v)
        return self.it.conv(v, None, t)

    def pack(self, t, cells, n=None):
        pf, lf = self.fields(t)
        o = Obj(t)
        a = Arr(cells)
        a.et = self.it.unconst(pf.type.e)
        a.label = 'arg'
        o.f[pf.name] = Cell(Ptr(None, a, 0) if cells else None)
        o.f[lf.name] = Cell(len(cells) if n is None else n)
        self.args.append((o, pf, lf, a, [self.it.copy(c.v) for c in cells], len(cells) if n is None else n, o.f[pf.name].v))
        return o

    def list(self, t, vals, n=None):
        et = self.it.unconst(self.fields(t)[0].type.e)
        if is_strct(et):
            return self.pack(t, [Cell(self.string(et, s)) for s in vals], n)
        return self.pack(t, [Cell(self.val(v, et)) for v in vals], n)

    def string(self, t, s, n=None):
        """s: list of characters, each a name (opaque) or a one-character constant prefixed '='."""
        et = self.it.unconst(self.fields(t)[0].type.e)
        n = getattr(s, 'n', n)
        cells = []
        for c in s:
            cells.append(Cell(self.it.conv(ord(c[1]), None, et) if c[0] == '=' else BV(tm.var(c, 8), et)))
        return self.pack(t, cells, n)

    # ---- running ----
    def run(self, e, make, post, nan=False, max_paths=None, elf=None):
        """Explore kernel e on make(kw) (its native arguments, context appended here); post(kw, ret) runs inside every
        completed partition."""
        it = self.it
        it.nan = nan
        lim = it.max_paths
        if max_paths:
            it.max_paths = max_paths
        fd = e.cfunc

        def thunk():
            self.args = []
            a = make(self)
            self.ctx = Cell(self.context())
            c = [Cell(x) for x in a]
            if len(c) < len(fd.p):
                c.append(Cell(Ptr(self.ctx)))
            if len(c) != len(fd.p):
                raise Broken('%s takes %d parameters' % (fd.q, len(fd.p)))
            r = it.call_fn(fd, None, c)
            return post(self, r.v if isinstance(r, Cell) else r)
        try:
            return it.explore(thunk)
        finally:
            it.max_paths = lim

    def context(self):
        c = [d for d in self.p.fdecls.values() if d.ctor and d.cls is not None and d.cls.s == self.ct.s and d.p is not None and
             not (d.copyctor or d.movector or d.deleted) and len(d.p) == 1]
        if len(c) != 1:
            raise Broken('constructor of ExecContext')
        return self.it.construct(self.ct, c[0], [4096])

    def errors(self):
        vs = [c for c in self.ctx.v.f.values() if isinstance(c.v, Vec)]
        if len(vs) != 1:
            raise Broken('error list of the execution context')
        return len(vs[0].v.c)

    # ---- reading results ----
    def read(self, v, t):
        """Python value of a kernel result of C++ type t: term, list of terms, or list of list of char terms."""
        it = self.it
        if t.k != 'rec':
            return it.term(it.conv(v, v.ty if isinstance(v, BV) else None, t), t)
        pf, lf = self.fields(t)
        n = it.concrete(v.f[lf.name].v)
        if n is UNINIT or v.f[pf.name].v is UNINIT:
            raise Bad('uninit', 'result structure not filled')
        if not isinstance(n, int):
            raise Broken('result length %r' % (n,))
        p = v.f[pf.name].v
        et = it.unconst(pf.type.e)
        if n == 0:
            return []
        cs = self.cells(p, n, et)
        out = []
        for c in cs:
            x = c.v
            if x is UNINIT:
                raise Bad('uninit', 'element %d of the result is never written' % len(out))
            if et.k == 'rec':
                out.append(self.read(x, et))
            else:
                out.append(it.term(it.conv(x, x.ty if isinstance(x, BV) else None, et), et))
        return out

    def cells(self, p, n, et):
        it = self.it
        if isinstance(p, Raw):
            tp = next((t for t in self.p.types.values() if t.k == 'ptr' and it.unconst(t.e).s == et.s), None)
            p = it.ptrcast(p, None, tp)
        if p is None:
            raise Bad('oob', 'result of %d elements has a null pointer' % n)
        if not isinstance(p, Ptr):
            raise Broken('result pointer %r' % (p,))
        if isnum(et):
            p = it.view(p, et)
        if p.arr is None and isinstance(p.cell.v, str):
            p = it.textarr(p)
            return [p.arr[p.i + k] for k in range(n)]
        if p.arr is None:
            if n != 1:
                raise Bad('oob', 'result of %d elements points to one' % n)
            raise Bad('local', 'result points to a local variable')
        if not isinstance(p.arr, Arr):
            raise Bad('local', 'result points into a local buffer')
        if p.i < 0 or p.i + n > len(p.arr):
            raise Bad('oob', 'result of %d elements at %d of a block of %d' % (n, p.i, len(p.arr)))
        return p.arr[p.i:p.i + n]

    def changed(self):
        """First argument whose memory the kernel changed."""
        for o, pf, lf, a, old, n, p in self.args:
            for i, (c, v) in enumerate(zip(a, old)):
                x = c.v
                if isinstance(x, Obj):
                    continue          # string views have their own record
                if isinstance(x, BV) and isinstance(v, BV) and x.id == v.id:
                    continue
                if x is v or not isinstance(x, BV) and not isinstance(v, BV) and x == v:
                    continue
                if isinstance(x, (BV, int, float)) and isinstance(v, (BV, int, float)) and x is not UNINIT and \
                        self.it.facts.same(self.it.term(x, a.et), self.it.term(v, a.et)):
                    continue
                return 'element %d of an argument %s' % (i, o.cls.s)
        return None
