"""Arena storage: aligned, in bounds, disjoint; released once; owned objects destroyed once, newest first."""
import itertools
import random
from ..world import *
from ..interp import CxxThrow
from ..query import refs, line

EXPLAIN = ('Arena\'s member functions are evaluated on the typed AST over a model of the C heap with concrete addresses (all residues modulo 64 a 16-aligned allocator can produce, '
           'each malloc succeeding or failing); every returned region is compared with all live regions and chunks, every free and destructor call is counted.')
ASSUME = ['malloc returns 16-byte aligned disjoint regions or null', 'request sizes far below SIZE_MAX (documented precondition)', 'the heap of finalizer and chunk lists does not fail']
BAD = ('oob', 'nullderef', 'malformed', 'uninit', 'div0', 'noreturn')


class Addr:
    """A byte pointer of the modelled heap."""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a


class Hooks:
    def __init__(self, h):
        self.h = h

    def find(self, fd, q):
        return None

    def default(self, *a):
        return NotImplemented
    construct = aggregate = iterate = make_unique = default

    def new(self, it, et, v, e, pl):
        if len(pl) == 1 and isinstance(pl[0], Addr):
            c = Cell(v)
            self.h.placed.append((pl[0].a, c, et))
            return Ptr(c)
        return NotImplemented

    def binop(self, it, op, a, b, t):
        if isinstance(a, Addr) and isinstance(b, Addr):
            if op == '-':
                return a.a - b.a
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return int(eval('%d %s %d' % (a.a, op, b.a)))
        if isinstance(a, Addr) and isinstance(b, int) and op in '+-':
            return Addr(a.a + b if op == '+' else a.a - b)
        if isinstance(b, Addr) and isinstance(a, int) and op == '+':
            return Addr(b.a + a)
        return NotImplemented


class Heap(World):
    def __init__(self):
        super().__init__()
        it = self.it
        it.models.extra.append(Hooks(self))
        self.at = NS + 'Arena'
        if self.at not in self.p.types:
            raise Broken('class Arena vanished')
        base_cast, base_eq = it.e_cast, it.equal

        def cast(e):
            if e['ck'] in ('PointerToIntegral', 'IntegralToPointer', 'BitCast', 'PointerToBoolean'):
                v = it.rv(e['e'])
                if e['ck'] == 'PointerToIntegral':
                    return 0 if v is None else v.a if isinstance(v, Addr) else v
                if e['ck'] == 'IntegralToPointer' and isinstance(v, int):
                    return Addr(v) if v else None
                if isinstance(v, Addr):
                    return 1 if e['ck'] == 'PointerToBoolean' else v
                if e['ck'] == 'BitCast' and (v is None or isinstance(v, (Ptr, FnRef))):
                    return v
            return base_cast(e)

        def equal(a, b):
            if isinstance(a, Addr) or isinstance(b, Addr):
                return isinstance(a, Addr) and isinstance(b, Addr) and a.a == b.a
            return base_eq(a, b)
        it.e_cast, it.equal = cast, equal
        it.override['malloc'] = it.override['std::malloc'] = self.malloc
        it.override['free'] = it.override['std::free'] = self.free
        for n in ('calloc', 'realloc', 'aligned_alloc', 'posix_memalign'):
            it.override[n] = it.override['std::' + n] = lambda it, fd, this, a, e: it.event('malformed', what='unmodelled allocator') and None
        al = [f for f in self.p.by_q.get(self.at + '::Allocate', []) if f.decl.cls is not None and len(f.decl.p) == 2 and f.decl.p[0].strip().k == 'int']
        if len(al) != 1:
            raise Broken('Arena::Allocate(size, alignment): %d definitions' % len(al))
        self.al = al[0]
        self.reset_fn = self.p.fn(self.at + '::Reset')
        d = [f for f in self.p.funcs.values() if f.decl.dtor and f.decl.cls is not None and f.decl.cls.s == self.at]
        if len(d) != 1:
            raise Broken('~Arena: %d definitions' % len(d))
        self.dtor = d[0]
        self.it.override[self.al.decl.key] = self.inner
        self.clear()

    def inner(self, it, fd, this, a, e):
        size, align = [x.v if isinstance(x, Cell) else x for x in a]
        return self.allocate(this, size, align)

    def clear(self, residue=16, fail=()):
        self.live = {}       # base -> size
        self.freed = []
        self.nmalloc = 0
        self.fail = set(fail)
        self.residue = residue
        self.next = 1 << 20
        self.regions = []    # (addr, size) handed out since the last reset
        self.placed = []
        self.errs = []

    def malloc(self, it, fd, this, a, e):
        n = a[0].v if isinstance(a[0], Cell) else a[0]
        if not isinstance(n, int):
            raise Broken('allocation of %r bytes' % (n,))
        self.nmalloc += 1
        if self.nmalloc - 1 in self.fail:
            return None
        base = (self.next | 63) + 1 + self.residue
        self.live[base] = n
        self.next = base + n + 64
        return Addr(base)

    def free(self, it, fd, this, a, e):
        v = a[0].v if isinstance(a[0], Cell) else a[0]
        if v is None:
            return None
        if not isinstance(v, Addr) or v.a not in self.live:
            self.errs.append('frees %s, which is no live chunk' % (hex(v.a) if isinstance(v, Addr) else v,))
            return None
        self.freed.append(v.a)
        del self.live[v.a]
        return None

    # operations
    def allocate(self, ar, size, align):
        n0 = self.nmalloc
        r = self.it.run_fn(self.al, ar, [size, align])
        r = r.v if isinstance(r, Cell) else r
        failed = any(k in self.fail for k in range(n0, self.nmalloc))
        if size == 0:
            if r is not None:
                self.errs.append('an empty request gives a pointer')
            if self.nmalloc != n0:
                self.errs.append('an empty request allocates')
            return r
        if r is None:
            if not failed:
                self.errs.append('a request of %d aligned %d gives null although memory was available' % (size, align))
            return r
        if not isinstance(r, Addr):
            self.errs.append('a request gives %r' % (r,))
            return r
        what = 'a request of %d aligned %d gives [%#x, %#x)' % (size, align, r.a, r.a + size)
        if r.a % align:
            self.errs.append(what + ', which is misaligned')
        if not any(b <= r.a and r.a + size <= b + n for b, n in self.live.items()):
            self.errs.append(what + ', which is not inside one chunk %s' % {hex(b): n for b, n in self.live.items()})
        for b, n in self.regions:
            if r.a < b + n and b < r.a + size:
                self.errs.append(what + ', which overlaps [%#x, %#x)' % (b, b + n))
                break
        self.regions.append((r.a, size))
        return r

    def bytes(self, ar, what):
        r = self.it.run_fn(self.p.fn(self.at + '::' + what), ar, [])
        return r.v if isinstance(r, Cell) else r

    def account(self, ar):
        t, av = self.bytes(ar, 'total_bytes'), self.bytes(ar, 'avail_bytes')
        if t != sum(self.live.values()):
            self.errs.append('total_bytes %s, the chunks hold %d' % (t, sum(self.live.values())))
        # the bytes said to be available really are: behind everything handed out of one chunk
        room = [b + n - max([x + s for x, s in self.regions if b <= x < b + n] + [b]) for b, n in self.live.items()] or [0]
        if not isinstance(av, int) or av > max(room) or av < 0:
            self.errs.append('avail_bytes %s, free tails of the chunks %s' % (av, room))

    def reset(self, ar):
        first = next(iter(self.live), None)
        before = dict(self.live)
        self.it.run_fn(self.reset_fn, ar, [])
        self.regions = []
        if first is not None and set(self.live) != {first}:
            self.errs.append('reset keeps %d of %d chunks, not exactly the first' % (len(self.live), len(before)))

    def destroy(self, ar):
        self.it.run_fn(self.dtor, ar, [])
        if self.live:
            self.errs.append('%d chunks leak' % len(self.live))


def histories(ctx):
    """(min chunk, residue, malloc failures, operations): an operation is (size, alignment) or 'R'."""
    al = (1, 2, 4, 8, 16, 32, 64)
    # every start offset x every alignment x sizes around the end of the chunk
    for mc, res in itertools.product((1, 64, 100), (0, 16, 32, 48)):
        for off in range(1, 66 if ctx.thorough else 34):
            for a2 in al:
                pad = -(res + off) % a2
                rem = mc - off
                for s2 in sorted({1, rem - pad - 1, rem - pad, rem - pad + 1, rem, rem + 1, 2 * mc}):
                    if s2 > 0 and (ctx.thorough or (off + s2 + a2) % 2 == 0 or s2 in (rem - pad, rem - pad + 1)):
                        yield mc, res, (), ((off, 1), (s2, a2), (3, 8))
    # first request on an empty arena, larger than, equal to, smaller than the chunk
    for mc, res, a in itertools.product((1, 8, 64), (0, 16, 48), al):
        for s in (0, 1, 7, 8, mc - a, mc - a + 1, mc - 1, mc, mc + 1, 1000):
            if s >= 0:
                yield mc, res, (), ((s, a), (1, a), (s, 8))
    # resets and failures
    ops = [(8, 8), (60, 1), (200, 8), (0, 8), (5, 32), 'R']
    for h in itertools.product(ops, repeat=4 if ctx.thorough else 3):
        yield 64, 16, (), h + ('R', (40, 8), (200, 8), 'R')
        for f in range(3):
            yield 64, 48, (f,), h + ((9, 8), 'R', (9, 8))
    yield 64, 16, (0, 1), ('R', (8, 8), (8, 8), (8, 8), 'R', 'R')
    rnd = random.Random(7)
    for _ in range(400 if ctx.thorough else 60):
        yield (rnd.choice((1, 33, 64, 128)), rnd.choice((0, 16, 32, 48)), tuple(k for k in range(6) if rnd.random() < .15),
               tuple('R' if rnd.random() < .12 else (rnd.choice((0, 1, 3, 8, 24, 63, 64, 65, 130)), rnd.choice(al)) for _ in range(14)))


def run(ctx):
    w = Heap()
    it, p = w.it, w.p
    at = (w.al.file, w.al.line)

    def arena(mc):
        return Cell(w.new('Arena', mc, pred=lambda d: d.p[0].strip().k == 'int'))

    for mc, res, fail, ops in histories(ctx):
        w.clear(res, fail)

        def thunk():
            ar = arena(mc)
            for o in ops:
                if o == 'R':
                    w.reset(ar)
                else:
                    w.allocate(ar, *o)
                w.account(ar)
            w.destroy(ar)
            return list(w.errs)
        rs = it.explore(thunk)
        why = None
        if len(rs) != 1 or rs[0]['kind'] != 'ret':
            why = 'does not return: %s' % [(r['kind'], r.get('why')) for r in rs]
        elif [e for e in rs[0]['events'] if e['kind'] in BAD]:
            e = [e for e in rs[0]['events'] if e['kind'] in BAD][0]
            why = '%s %s' % (e['kind'], e.get('what'))
        elif rs[0]['ret']:
            why = rs[0]['ret'][0]
        ctx.ob('storage', 'chunk %d base %d mod 64 failures %s: %s' % (mc, res, list(fail), ops), why is None, at, why)
    ctx.need('storage', 2000)

    # every request of the library asks for an alignment the arena can honour (a power of two), written or by default
    for f in p.funcs.values():
        for d, x in refs(f):
            if d.key != w.al.decl.key or not isinstance(x.get('a'), list) or len(x['a']) != 2:
                continue
            k = x['a'][1]
            if k.get('k') != 'int':
                continue
            ctx.ob('requests', '%s' % f.decl.q, k['v'] > 0 and k['v'] & (k['v'] - 1) == 0, line(x, f), 'a request is aligned to %d bytes' % k['v'])
    ctx.need('requests', 3)

    # reuse: after a reset the same requests need no new memory as long as they fit the first chunk
    for mc, sizes in itertools.product((64, 4096), ([8, 8, 8], [64], [1, 1, 30], [63])):
        w.clear(16)

        def thunk():
            ar = arena(mc)
            for _ in range(3):
                for s in sizes:
                    w.allocate(ar, s, 1)
                w.reset(ar)
            return w.nmalloc
        rs = it.explore(thunk)
        ok = len(rs) == 1 and rs[0]['kind'] == 'ret' and rs[0]['ret'] == 1
        ctx.ob('reuse', 'chunk %d requests %s' % (mc, sizes), ok, (w.reset_fn.file, w.reset_fn.line), 'three rounds make %s system allocations instead of 1' % (rs[0].get('ret'),))

    # owned objects
    creates = [f for f in p.by_q.get(w.at + '::Create', [])]
    if len(creates) < 2:
        raise Broken('Arena::Create: %d instantiations' % len(creates))
    died = []
    lib = it.call_lib

    def call_lib(fd, this, args, e=None):
        if fd.dtor:
            died.append(this)
            return None
        return lib(fd, this, args, e)
    it.call_lib = call_lib
    seen = {}
    for f in creates:
        seen.setdefault(f.decl.r.strip().e.s if f.decl.r is not None and f.decl.r.strip().k == 'ptr' else f.decl.key, f)
    fs = list(seen.values())
    loc = (fs[0].file, fs[0].line)
    plans = [(a, 'R', b) for a, b in itertools.product(range(len(fs)), repeat=2)] + [(0, 1, 2 % len(fs), 'R'), (0, 'F', 1, 'R', 1), (0, 1, 'R', 1, 0, 'R', 'R'), ('R', 0, 0, 0), (), (0, 'F')]
    plans += list(itertools.product([0, 1, 'R', 'F'], repeat=4))
    for plan in plans:
        w.clear(16)
        died.clear()

        def thunk():
            ar = arena(256)
            alive = []
            errs = []
            for o in plan + ('D',):
                if o in ('R', 'D'):
                    n = len(died)
                    regions = list(w.regions)
                    live = dict(w.live)
                    if o == 'R':
                        w.reset(ar)
                    else:
                        w.destroy(ar)
                    got = died[n:]
                    if [id(x) for x in got] != [id(x) for x in reversed(alive)]:
                        errs.append('%s destroys %d objects%s, %d are owned' % ('reset' if o == 'R' else 'the destructor', len(got), '' if len(got) != len(alive) else ' in the wrong order', len(alive)))
                    alive = []
                    continue
                fail = o == 'F'
                if fail:
                    w.fail = set(range(w.nmalloc, w.nmalloc + 4))
                    # leave no room, so that the next object needs memory
                    w.fail = set()
                    av = w.bytes(ar, 'avail_bytes')
                    if av:
                        w.allocate(ar, av, 1)
                    w.fail = set(range(w.nmalloc, w.nmalloc + 4))
                f = fs[0 if fail else o]
                n, m = len(w.placed), len(w.regions)
                r = it.run_fn(f, ar, [Cell(Map()) for t in f.decl.p])
                r = r.v if isinstance(r, Cell) else r
                if fail:
                    w.fail = set()
                    if r is not None or len(w.placed) != n:
                        errs.append('an object is created without memory')
                    continue
                if len(w.placed) != n + 1 or not isinstance(r, Ptr) or r.target() is not w.placed[-1][1]:
                    errs.append('Create gives %r' % (r,))
                    continue
                a, c, et = w.placed[-1]
                if len(w.regions) == m or w.regions[-1][0] != a:
                    errs.append('the object is placed at %#x, not in the storage requested for it' % a)
                elif et.s.startswith(('std::unordered_map', 'class std::unordered_map')) and (w.regions[-1][1] < 56 or a % 8):
                    errs.append('the storage of a 56 byte hash map has %d bytes at %#x' % (w.regions[-1][1], a))
                alive.append(c)
            return errs + w.errs
        rs = it.explore(thunk)
        ok = len(rs) == 1 and rs[0]['kind'] == 'ret' and not rs[0]['ret'] and not [e for e in rs[0]['events'] if e['kind'] in BAD]
        ctx.ob('owned', 'history %s' % (plan,), ok, loc, (rs[0].get('ret') or [rs[0].get('why') or [e for e in rs[0]['events'] if e['kind'] in BAD][:1]])[0] if rs else None)
    for f in fs:
        ctx.stats.setdefault('created types', []).append(f.decl.key[:90])
    ctx.need('owned', 200)

    # execution contexts: errors in order, cleared together with the storage
    cq = NS + 'ExecContext'
    cf = p.fn(cq + '::GetErrorMessage')
    for h in itertools.chain.from_iterable(itertools.product(['a', '', 'b; c', 'C'], repeat=n) for n in range(6)):
        if len(h) == 5 and 'C' not in h:
            continue
        w.clear(16)

        def thunk():
            c = Cell(w.new('ExecContext', 64, pred=lambda d: d.p[0].strip().k == 'int'))
            errs, bad = [], []
            for x in h:
                if x == 'C':
                    ar = c.v.f[[n for n, v in c.v.f.items() if isinstance(v.v, Obj) and v.v.cls.s == w.at][0]]
                    w.allocate(ar, 40, 8)
                    w.allocate(ar, 400, 8)
                    w.call(cq + '::Clear', c)
                    w.regions = []
                    if len(w.live) != 1:
                        bad.append('clearing keeps %d chunks' % len(w.live))
                    errs = []
                else:
                    w.call(cq + '::AddError', c, Cell(x))
                    errs.append(x)
                he, m = [x.v if isinstance(x, Cell) else x for x in (w.call(cq + '::HasErrors', c), w.call(cq + '::GetErrorMessage', c))]
                if bool(he) != bool(errs) or m != '; '.join(errs):
                    bad.append('reports %s %r after the errors %s' % (he, m, errs))
            return bad + w.errs
        rs = it.explore(thunk)
        ok = len(rs) == 1 and rs[0]['kind'] == 'ret' and not rs[0]['ret']
        ctx.ob('context', 'history %s' % (h,), ok, (cf.file, cf.line), (rs[0].get('ret') or [rs[0].get('why')])[0] if rs else None)
    ctx.need('context', 300)
