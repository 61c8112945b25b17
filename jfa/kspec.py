"""What the documented native builtins compute, as a reading of doc/function.md in the term domain, and the argument
shapes they are evaluated on."""
from . import terms as tm
from .prog import Broken
from .world import NUMS, LISTS, INTS, elem, is_int

MISS = 0xffffffff
ERR = ('err',)
ANYV = ('any',)


class Alt(list):
    """Any of several results is right."""


class Unspec(Exception):
    """The documentation leaves this case open."""


def w(t):
    return int(t[1:])


def isf(t):
    return t[0] == 'F'


def sg(t):
    return t[0] == 'I'


class S:
    """Decisions of the specification, shared with the evaluated kernel."""

    def __init__(self, facts):
        self.f = facts

    def dom(self, t):
        return 'f' if isf(t) else ('s' if sg(t) else 'u')

    def lt(self, t, a, b):
        return self.f.decide(tm.lt(self.dom(t), a, b))

    def eq(self, t, a, b):
        return self.f.decide(tm.eq(a, b))

    def le(self, t, a, b):
        if isf(t) and self.f.nan:
            return self.lt(t, a, b) or self.eq(t, a, b)
        return not self.lt(t, b, a)

    def cmp(self, o, t, a, b):
        return {'Large': lambda: self.lt(t, b, a), 'LargeEqual': lambda: self.le(t, b, a), 'Equal': lambda: self.eq(t, a, b),
                'Less': lambda: self.lt(t, a, b), 'LessEqual': lambda: self.le(t, a, b),
                'NotEqual': lambda: not self.eq(t, a, b)}[o]()

    def isnan(self, t, x):
        return isf(t) and self.f.isnan(x)

    def sort(self, t, xs, desc=False):
        out = []
        for v in xs:
            i = len(out)
            while i > 0 and (self.lt(t, out[i - 1], v) if desc else self.lt(t, v, out[i - 1])):
                i -= 1
            out.insert(i, v)
        return out

    # strings are lists of 8-bit terms
    def seq(self, a, b):
        return len(a) == len(b) and all(self.f.decide(tm.eq(x, y)) for x, y in zip(a, b))

    def slt(self, a, b):
        for x, y in zip(a, b):
            if not self.f.decide(tm.eq(x, y)):
                return self.f.decide(tm.lt('u', x, y))
        return len(a) < len(b)

    def same(self, t, a, b):
        return self.seq(a, b) if t == 'String' else self.eq(t, a, b)


def k(v, t):
    return tm.fconst(float(v), w(t)) if isf(t) else tm.const(v, w(t))


def cv(x, a, b):
    """Numeric conversion of a term from type a to type b."""
    if a == b:
        return x
    if isf(a) and isf(b):
        return tm.op('fpext' if w(b) > w(a) else 'fptrunc', w(b), x)
    if isf(a):
        return tm.op('fptosi' if sg(b) else 'fptoui', w(b), x)
    if isf(b):
        return tm.op('sitofp' if sg(a) else 'uitofp', w(b), x)
    if w(b) < w(a):
        return tm.trunc(x, w(b))
    return (tm.sext if sg(a) else tm.zext)(x, w(b)) if w(b) > w(a) else x


def arith(o, t, x, y):
    if isf(t):
        return tm.op({'Add': 'fadd', 'Sub': 'fsub', 'Mul': 'fmul', 'Div': 'fdiv'}[o], w(t), x, y)
    if o in ('Add', 'Sub', 'Mul'):
        return {'Add': tm.add, 'Sub': tm.sub, 'Mul': tm.mul}[o](x, y)
    if o in ('Div', 'Mod'):
        return tm.op(('s' if sg(t) else 'u') + ('div' if o == 'Div' else 'rem'), w(t), x, y)
    return tm.bitwise({'BitwiseAnd': '&', 'BitwiseOr': '|', 'BitwiseXor': '^'}[o], x, y)


ARITH = ('Add', 'Sub', 'Mul', 'Div', 'Mod', 'BitwiseAnd', 'BitwiseOr', 'BitwiseXor')
CMPS = ('Large', 'LargeEqual', 'Equal', 'Less', 'LessEqual', 'NotEqual')
MATH = {'Exp': 'exp', 'Log': 'log', 'Log2': 'log2', 'Log10': 'log10', 'Ceil': 'ceil', 'Floor': 'floor', 'Round': 'round'}


def accty(t):
    return 'F64' if isf(t) else ('I64' if sg(t) else 'U64')


def sumof(xs, t, acc):
    r = None
    for x in xs:
        x = cv(x, t, acc)
        r = x if r is None else arith('Add', acc, r, x)
    return k(0, acc) if r is None else r


def mean(xs, t):
    """Sum in F64 over the count."""
    return arith('Div', 'F64', sumof(xs, t, 'F64'), k(len(xs), 'F64'))


def half(x, y, t):
    return arith('Div', 'F64', arith('Add', 'F64', cv(x, t, 'F64'), cv(y, t, 'F64')), k(2, 'F64'))


def maskbit(s, bm, i):
    return s.f.decide(tm.bit(bm[i // 8], i % 8))


def rotl(x, r):
    return tm.bitwise('|', tm.shl(x, r), tm.shr(x, 32 - r, False))


def murmur3(bs, seed):
    """MurmurHash3_x86_32 of a sequence of byte terms."""
    C = lambda v: tm.const(v, 32)
    c1, c2 = C(0xcc9e2d51), C(0x1b873593)
    h = C(seed)

    def mixk(v):
        return tm.mul(rotl(tm.mul(v, c1), 15), c2)
    n = len(bs) // 4
    for i in range(n):
        h = tm.bitwise('^', h, mixk(tm.cat(bs[4 * i:4 * i + 4])))
        h = tm.add(tm.mul(rotl(h, 13), C(5)), C(0xe6546b64))
    tail = bs[4 * n:]
    if tail:
        h = tm.bitwise('^', h, mixk(tm.zext(tm.cat(tail), 32)))
    h = tm.bitwise('^', h, C(len(bs)))
    h = tm.bitwise('^', h, tm.shr(h, 16, False))
    h = tm.mul(h, C(0x85ebca6b))
    h = tm.bitwise('^', h, tm.shr(h, 13, False))
    h = tm.mul(h, C(0xc2b2ae35))
    return tm.bitwise('^', h, tm.shr(h, 16, False))


def bytesof(x, t):
    if isf(t):
        n = tm.N[x]
        if n[0] == 'fc':
            import struct
            x = tm.const(int.from_bytes(struct.pack('<f' if w(t) == 32 else '<d', float(n[2])), 'little'), w(t))
        else:
            x = tm.mk(('op', 'fbits', w(t), x), w(t))
    b = tm.bits(x)
    return [tm.frombits(b[i:i + 8]) for i in range(0, len(b), 8)]


def spec(kw, e, a, s):
    """Documented result of builtin e on argument values a."""
    n = e.name
    P = [p for p in e.params if p != 'Ptr' or n.startswith('__')]
    L0 = elem(P[0]) if P and P[0].endswith('List') else None
    if n.startswith('List') and n[4:] in ARITH:
        o = n[4:]
        if P[1].endswith('List'):
            if len(a[0]) != len(a[1]):
                return ERR
            return [arith(o, L0, x, y) for x, y in zip(a[0], a[1])]
        return [arith(o, L0, x, a[1]) for x in a[0]]
    if n.startswith('List') and n[4:] in MATH:
        f = MATH[n[4:]]
        R = elem(e.ret)
        if isf(L0):
            t = L0
            one = [cv(tm.op('fm:' + f, w(t), x), t, R) for x in a[0]]
            two = [tm.op('fm:' + f, w(R), cv(x, t, R)) for x in a[0]]
            return Alt([one, two])
        return [tm.op('fm:' + f, w(R), cv(x, L0, R)) for x in a[0]]
    if n in ('ListMin', 'ListMax'):
        return [(a[1] if s.lt(L0, *((a[1], x) if n == 'ListMin' else (x, a[1]))) else x) for x in a[0]]
    if n.startswith('If') and n[2:] in CMPS:
        return [a[2] if s.cmp(n[2:], L0, x, a[1]) else x for x in a[0]]
    if n == 'IfByBitmap':
        ls = [x for x in a[1:] if isinstance(x, list)]
        m = len(ls[0])
        if any(len(x) != m for x in ls):
            return ERR
        if len(a[0]) < (m + 7) // 8:
            return ERR
        g = lambda x, i: x[i] if isinstance(x, list) else x
        return [g(a[1] if maskbit(s, a[0], i) else a[2], i) for i in range(m)]
    if n.startswith('Gen') and n.endswith('Bitmap') and n[3:-6] in CMPS:
        o = n[3:-6]
        ys = a[1]
        if isinstance(ys, list):
            if len(ys) != len(a[0]):
                return ERR
        else:
            ys = [ys] * len(a[0])
        bs = [tm.ONE if s.cmp(o, L0, x, y) else tm.ZERO for x, y in zip(a[0], ys)]
        bs += [tm.ZERO] * (-len(bs) % 8)
        return [tm.frombits(bs[i:i + 8]) for i in range(0, len(bs), 8)]
    if n == 'FilterByBitmap':
        m = len(a[0])
        if (m + 7) // 8 != len(a[1]):
            return ERR
        sel = [i for i in range(8 * len(a[1])) if maskbit(s, a[1], i)]
        c = tm.cval(s.f.sub(a[2]))
        if c is None:
            raise Broken('opaque bit count')
        if c != len(sel) or sel and sel[-1] >= m:
            return ERR
        return [a[0][i] for i in sel]
    if n == 'CountBits':
        r = tm.const(0, 32)
        for x in a[0]:
            r = tm.add(r, tm.popcount(x, 32))
        return r
    if n.startswith('Cast') and P[0] != 'String' and P[0] != 'StringList' and e.ret.endswith('List') and e.ret != 'StringList':
        return [cv(x, L0, elem(e.ret)) for x in a[0]]
    if n == 'MurmurHash3X8632':
        bs = []
        for x in a[0]:
            bs += bytesof(x, L0)
        return murmur3(bs, 0x9747b28c)
    # ---- aggregates and ordering ----
    if n == 'Sum':
        return sumof(a[0], L0, accty(L0))
    if n in ('Max', 'Min'):
        if not a[0]:
            return k(0, L0)
        r = a[0][0]
        for x in a[0][1:]:
            if s.lt(L0, r, x) if n == 'Max' else s.lt(L0, x, r):
                r = x
        return r
    if n == 'Avg':
        return mean(a[0], L0) if a[0] else k(0, 'F64')
    if n in ('Median', 'SortedMedian'):
        xs = s.sort(L0, a[0]) if n == 'Median' else a[0]
        m = len(xs)
        if not m:
            return k(0, 'F64')
        return cv(xs[m // 2], L0, 'F64') if m % 2 else half(xs[m // 2 - 1], xs[m // 2], L0)
    if n in ('CountDistinct', 'Unique', 'GroupIndex'):
        ks, ix = [], []
        for x in a[0]:
            for j, y in enumerate(ks):
                if s.same(L0, x, y):
                    break
            else:
                j = len(ks)
                ks.append(x)
            ix.append(j)
        return tm.const(len(ks), 32) if n[0] == 'C' else (ks if n[0] == 'U' else [tm.const(j, 32) for j in ix])
    if n in ('SortAsc', 'SortDesc'):
        return s.sort(L0, a[0], n == 'SortDesc')
    if n == 'GetAt':
        for i, x in enumerate(a[0]):
            if s.eq('U32', a[1], tm.const(i, 32)):
                return x
        return k(0, L0)
    if n == 'ListConcat':
        return a[0] + a[1]
    if n == 'in':
        return tm.const(int(any(s.same(P[0], a[0], x) for x in a[1])), 8)
    # ---- grouping ----
    if n == 'GroupCount':
        if not a[0]:
            return tm.const(0, 32)
        r = a[0][0]
        for x in a[0][1:]:
            if s.lt('U32', r, x):
                r = x
        return tm.add(r, tm.const(1, 32))
    if n in ('GroupKeys', 'GroupSum', 'GroupMax', 'GroupMin', 'GroupAvg'):
        if len(a[0]) != len(a[1]):
            return ERR
        g = [tm.cval(x) for x in a[1]]
        d = tm.cval(a[2])
        if None in g or d is None:
            raise Broken('opaque group index')
        if n == 'GroupKeys':
            if any(x >= d for x in g):
                raise Unspec()
            seen = []
            for x in g:
                if x > len(seen):
                    raise Unspec()
                if x == len(seen):
                    seen.append(x)
            if len(seen) != d:
                raise Unspec()
            return [a[0][g.index(j)] for j in range(d)]
        if any(x >= d for x in g):
            return ERR
        out = []
        for j in range(d):
            xs = [v for v, x in zip(a[0], g) if x == j]
            if n == 'GroupSum':
                out.append(sumof(xs, L0, accty(L0)) if xs else ANYV)
            elif n == 'GroupAvg':
                out.append(mean(xs, L0) if xs else ANYV)
            elif not xs:
                out.append(ANYV)
            else:
                r = xs[0]
                for x in xs[1:]:
                    if s.lt(L0, r, x) if n == 'GroupMax' else s.lt(L0, x, r):
                        r = x
                out.append(r)
        return out
    # ---- lookups ----
    if n in ('Find', 'FindSorted'):
        for i, x in enumerate(a[0]):
            if s.same(L0, x, a[1]):
                return tm.const(i, 32)
        return tm.const(MISS, 32)
    if n in ('ListCompactPositions', 'ListCompactIndex'):
        hit = [i for i, x in enumerate(a[0]) if not s.eq('U32', x, tm.const(MISS, 32))]
        return [tm.const(i, 32) if n.endswith('Positions') else a[0][i] for i in hit]
    if n == 'ListGather':
        out = []
        for x in a[1]:
            for i, v in enumerate(a[0]):
                if s.eq('U32', x, tm.const(i, 32)):
                    out.append(v)
                    break
            else:
                out.append(a[2])
        return out
    if n == 'Bucketize':
        out = []
        for x in a[0]:
            r = len(a[1])
            if not s.isnan(L0, x):
                for i, b in enumerate(a[1]):
                    if s.lt(L0, x, b):
                        r = i
                        break
            out.append(tm.const(r, 32))
        return out
    if n in ('__LookupTableInt', '__LookupTableString'):
        out = []
        for x in a[0]:
            for i, y in enumerate(a[1]):
                if s.same(L0, x, y):
                    break
            else:
                i = MISS
            out.append(tm.const(i, 32))
        return out
    # ---- strings ----
    if n == 'StringConcat':
        return a[0] + a[1]
    if n == 'StringCmp':
        return ('sign', 0 if s.seq(a[0], a[1]) else (-1 if s.slt(a[0], a[1]) else 1))
    if n == 'StringContains':
        x, y = a
        return tm.const(int(any(s.seq(x[i:i + len(y)], y) for i in range(len(x) - len(y) + 1))), 8)
    if n in ('CrossJoin', 'ZipConcat'):
        if n == 'CrossJoin':
            return [x + a[2] + y for x in a[0] for y in a[1]]
        if len(a[0]) != len(a[1]):
            return ERR
        return [x + a[2] + y for x, y in zip(a[0], a[1])]
    if n == 'CastString':
        return ('text', P[0], a[0])
    if n == 'CastStringList':
        return [('text', L0, x) for x in a[0]]
    if n.startswith('Cast') and P[0] == 'String':
        return ('parse', e.ret, a[0])
    if n.startswith('Cast') and P[0] == 'StringList':
        return [('parse', elem(e.ret), x) for x in a[0]]
    raise Unspec('no specification of %s' % n)


FAMILY = {}


def family(e):
    n = e.name
    P = e.params
    if n in ('StringConcat', 'StringCmp', 'StringContains', 'CrossJoin', 'ZipConcat', 'CastString', 'CastStringList') or \
            n.startswith('Cast') and P[0] in ('String', 'StringList'):
        return 'string'
    if n in ('Sum', 'Max', 'Min', 'Avg', 'Median', 'SortedMedian', 'CountDistinct', 'Unique', 'SortAsc', 'SortDesc', 'CountBits',
             'GroupIndex', 'GroupCount', 'GroupKeys', 'GroupSum', 'GroupMax', 'GroupMin', 'GroupAvg', 'MurmurHash3X8632'):
        return 'aggregate'
    if n in ('Find', 'FindSorted', 'ListCompactPositions', 'ListCompactIndex', 'ListGather', 'Bucketize', 'GetAt', 'ListConcat', 'in') or \
            n.startswith('__'):
        return 'lookup'
    return 'element'


# ---- argument shapes ------------------------------------------------------------------------------------------------
def names(c, n):
    return ['%s%d' % (c, i) for i in range(n)]


def seqvals(t, n, m=0):
    """n concrete values of type t with repetitions, in no order."""
    base = [3, 1, 2, 3, 0, 2, 5, 1, 4]
    if isf(t):
        base = [2.5, -1.0, 0.5, 2.5, 3.0, -4.25, 0.5, 7.0, 1.0]
    elif sg(t):
        base = [3, -1, 2, 3, -128, 2, 127, -1, 4]
    else:
        base = [3, 1, 200, 3, 0, 200, 255, 1, 4]
    return [base[(i + m) % 9] for i in range(n)]


def asc(t, n):
    lo = 0 if t[0] == 'U' else -9
    return [lo + 2 * i if not isf(t) else lo + 2.0 * i for i in range(n)]


class HS(list):
    """String whose stated length n exceeds its (unread) characters."""

    def __init__(self, c, n):
        super().__init__(c)
        self.n = n


class Sc:
    """One evaluation scenario: argument descriptions and assumptions."""

    def __init__(self, label, args, nan=False, sorted=None, limit=None, huge=None, err=False):
        self.label = label
        self.args = args
        self.nan = nan
        self.sorted = sorted
        self.limit = limit
        self.huge = huge
        self.err = err or bool(huge)


def strs(c, lens):
    return [['%s%d_%d' % (c, i, j) for j in range(m)] for i, m in enumerate(lens)]


def scenarios(e, deep=False):
    n = e.name
    P = [p for p in e.params if p != 'Ptr']
    L0 = elem(P[0]) if P[0].endswith('List') else None
    L1 = elem(P[1]) if len(P) > 1 and P[1].endswith('List') else None
    out = []

    def add(label, *args, **kw):
        out.append(Sc(label, list(args), **kw))
    if n.startswith('List') and n[4:] in ARITH:
        for m in (0, 1, 2, 3, 9) + ((8, 17) if deep else ()):
            add('n=%d' % m, names('a', m), names('b', m) if L1 else 'b')
        if L1:
            mism(add, P, 2)
    elif n.startswith('List') and n[4:] in MATH or n.startswith('Cast') and L0 in NUMS and e.ret != 'StringList':
        for m in (0, 1, 2, 3, 9) + ((8, 17) if deep else ()):
            add('n=%d' % m, names('a', m))
    elif n in ('ListMin', 'ListMax') or n.startswith('If') and n[2:] in CMPS:
        tail = ['b', 'c'][:len(P) - 1]
        for m in (0, 1, 2, 3) + ((4, 5) if deep else ()):
            add('n=%d' % m, names('a', m), *tail)
        for m in (9,) + ((8, 16, 17) if deep else ()):
            for j in (0, 4):
                v = seqvals(L0, m, j)
                add('n=%d concrete' % m, v, v[2], *tail[1:])
        if isf(L0) and n[2:] in CMPS:
            add('n=2 nan', names('a', 2), *tail, nan=True)
    elif n == 'IfByBitmap':
        ls = [L1, elem(P[2]) if P[2].endswith('List') else None]
        t = ls[0] or ls[1]

        def two(m):
            return [names(c, m) if l else c for c, l in zip('bc', ls)]
        for m in (0, 1, 2, 3):
            add('n=%d' % m, ['#m0'] if m else [], *two(m))
        add('n=2 long bitmap', ['#m0', '#m1'], *two(2))
        for m in (8, 9, 16, 17):
            for pat in (0xA5C31, 0x5A3CE):
                add('n=%d bitmap %x' % (m, pat), [(pat >> 8 * i) & 255 for i in range((m + 7) // 8)], *two(m))
        add('short bitmap', [], *two(1))
        add('short bitmap', [255], *two(9))
        if all(ls):
            for p, q in ((1, 2), (2, 1), (0, 1), (1, 0)):
                add('lengths %d,%d' % (p, q), ['#m0'], names('b', p), names('c', q))
    elif n.startswith('Gen') and n[3:-6] in CMPS:
        for m in (0, 1, 2, 3) + ((4,) if deep else ()):
            add('n=%d' % m, names('a', m), names('b', m) if L1 else 'b')
        for m in (8, 9, 17) + ((7, 15, 16, 24, 25) if deep else ()):
            for j in (0, 3):
                v = seqvals(L0, m, j)
                add('n=%d concrete' % m, v, seqvals(L0, m, j + 1) if L1 else v[2])
        if isf(L0):
            add('n=2 nan', names('a', 2), names('b', 2) if L1 else 'b', nan=True)
        if L1:
            mism(add, P, 2)
    elif n == 'FilterByBitmap':
        for m in (0, 1, 2, 3):
            for b in range(1 << m):
                c = bin(b).count('1')
                add('n=%d bitmap %x' % (m, b), names('a', m), [b] if m else [], c)
                if b:
                    add('n=%d bitmap %x count-1' % (m, b), names('a', m), [b], c - 1)
        add('n=3 count+1', names('a', 3), [5], 3)
        add('n=3 stray bit', names('a', 3), [9], 2)
        add('n=0 count 1', [], [], 1)
        for m in (8, 9, 16, 17, 20):
            for pat in (0xA5C31, 0x5A3CE, 0xfffff, 0x0ff01, 0xff):
                pat &= (1 << m) - 1
                c = bin(pat).count('1')
                bm = [(pat >> 8 * i) & 255 for i in range((m + 7) // 8)]
                add('n=%d bitmap %x' % (m, pat), names('a', m), bm, c)
                add('n=%d bitmap %x count 0' % (m, pat), names('a', m), bm, 0)
                add('n=%d bitmap %x count max' % (m, pat), names('a', m), bm, MISS)
        add('bitmap too long', names('a', 2), [3, 0], 2)
        add('bitmap too short', names('a', 9), [3], 2)
    elif n == 'CountBits':
        for m in range(0, 12):
            add('n=%d' % m, ['#a%d' % i for i in range(m)])
        for m in (16, 17, 31, 33):
            add('n=%d' % m, ['#a%d' % i for i in range(m)])
    elif n == 'MurmurHash3X8632':
        for m in ((0, 1, 2, 3, 4, 5, 7, 8) if w(L0) == 8 else (0, 1, 2, 3)):
            add('n=%d' % m, names('a', m))
    elif n in ('Sum', 'Avg', 'SortedMedian'):
        for m in (0, 1, 2, 3, 4, 5, 9) + ((8, 17) if deep else ()):
            add('n=%d' % m, names('a', m), sorted=0 if n == 'SortedMedian' else None)
    elif n in ('Max', 'Min', 'SortAsc', 'SortDesc', 'Median'):
        for m in (0, 1, 2, 3, 4) if n == 'Median' or deep else (0, 1, 2, 3):
            add('n=%d' % m, names('a', m))
        for m in (5, 8, 9):
            add('n=%d concrete' % m, seqvals(L0, m, m))
    elif n in ('CountDistinct', 'Unique', 'GroupIndex'):
        if L0 == 'String':
            for ls in ((), (1,), (1, 1), (0, 0), (1, 1, 1), (2, 1, 2), (0, 1, 0)):
                add('lengths %s' % (ls,), strs('a', ls))
        else:
            for m in (0, 1, 2, 3, 4):
                add('n=%d' % m, names('a', m))
            for m in (9, 18):
                add('n=%d concrete' % m, seqvals(L0, m))
    elif n == 'GetAt':
        for m in (0, 1, 2, 3):
            add('n=%d' % m, names('a', m), 'b')
    elif n == 'ListConcat':
        for p in (0, 1, 2, 3):
            for q in (0, 1, 2, 3):
                if L0 == 'String':
                    add('%d,%d' % (p, q), strs('a', (1, 0, 2)[:p]), strs('b', (2, 1, 0)[:q]))
                else:
                    add('%d,%d' % (p, q), names('a', p), names('b', q))
        for x, y in ((MISS, MISS), (MISS, 1), (1, MISS), (0x80000000, 0x80000000)):
            add('lengths %d+%d' % (x, y), strs('a', (1,)) if L0 == 'String' else names('a', 1), strs('b', (1,)) if L0 == 'String' else names('b', 1), huge=(x, y))
    elif n == 'in':
        if P[0] == 'String':
            for x in (0, 1, 2):
                add('length %d' % x, ['c%d' % i for i in range(x)], strs('b', (1, 2, 0, 1, 2)))
                add('length %d empty list' % x, ['c%d' % i for i in range(x)], [])
        else:
            for m in (0, 1, 2, 3):
                add('n=%d' % m, 'a', names('b', m))
            for m in (8, 9, 17):
                v = seqvals(L1, m)
                add('n=%d last' % m, 77, v[:-1] + [77])
                add('n=%d first' % m, 77, [77] + v[1:])
                add('n=%d absent' % m, 77, v)
            if isf(P[0]):
                add('n=2 nan', 'a', names('b', 2), nan=True)
    elif n == 'GroupCount':
        for m in (0, 1, 2, 3):
            add('n=%d' % m, names('a', m))
        add('n=9', [0, 1, 2, 1, 5, 3, 4, 0, 2])
    elif n in ('GroupKeys', 'GroupSum', 'GroupMax', 'GroupMin', 'GroupAvg'):
        pats = [([], 0), ([0], 1), ([0, 0], 1), ([0, 1], 2), ([0, 1, 0], 2), ([0, 0, 1], 2), ([0, 1, 1], 2), ([0, 1, 2], 3), ([0, 1, 0, 1], 2),
                ([0, 1, 2, 0, 2], 3), ([0, 1, 0, 2, 1, 0, 2, 3, 3], 4)]
        bad = [([1], 1), ([0, 2], 2), ([MISS], 1), ([0], 0), ([1, 0], 2), ([0, 0], 2), ([1, 1], 2)]

        def vals(m):
            if L0 == 'String':
                return strs('a', [(1, 2, 0)[i % 3] for i in range(m)])
            return names('a', m)
        for g, d in pats + bad:
            if len(g) > 5 and n in ('GroupMax', 'GroupMin'):
                add('groups %s' % g, seqvals(L0, len(g)), g, d)
            else:
                add('groups %s/%d' % (g, d), vals(len(g)), g, d)
        for p, g in ((1, [0, 0]), (2, [0]), (0, [0]), (1, [])):
            add('lengths %d,%d' % (p, len(g)), vals(p), g, 1)
    elif n == 'Find' or n == 'FindSorted':
        so = 0 if n == 'FindSorted' else None
        if L0 == 'String':
            for ls in ((), (1,), (1, 1), (0, 1), (1, 2), (0, 1, 1)):
                for x in (0, 1, 2):
                    add('lengths %s value %d' % (ls, x), strs('a', ls), ['b%d' % i for i in range(x)], sorted=so)
        else:
            for m in (0, 1, 2, 3) + ((4, 5) if deep else ()):
                add('n=%d' % m, names('a', m), 'b', sorted=so)
            for m in (9, 16):
                v = asc(L0, m) if so == 0 else seqvals(L0, m)
                if so == 0:
                    v = sorted(v[:m // 2] + v[:m - m // 2])
                for x in sorted(set(v)) + [v[-1] + 1, v[0] + 1]:
                    add('n=%d value %s' % (m, x), v, x)
            if isf(L0) and n == 'Find':
                add('n=2 nan', names('a', 2), 'b', nan=True)
    elif n in ('ListCompactPositions', 'ListCompactIndex'):
        for m in (0, 1, 2, 3, 4):
            add('n=%d' % m, names('a', m))
        add('n=10', [0, MISS, 7, MISS, MISS, 1, 2, 3, MISS, 9])
    elif n == 'ListGather':
        def vs(m):
            return strs('a', [(1, 0, 2)[i % 3] for i in range(m)]) if L0 == 'String' else names('a', m)
        dv = ['c0', 'c1'] if L0 == 'String' else 'c'
        for m in (0, 1, 2):
            for q in (0, 1, 2):
                add('%d by %d' % (m, q), vs(m), names('b', q), dv)
        add('3 by 10', vs(3), [0, 2, 1, 3, MISS, 0, 2, 2, 0x80000000, 1], dv)
        add('10 by 2', vs(10), [9, 10], dv)
    elif n == 'Bucketize':
        for m in (0, 1, 2):
            for q in (0, 1, 2, 3):
                if m * q <= 4:
                    add('%d into %d' % (m, q), names('a', m), names('b', q), sorted=1)
        for q in (8, 15, 16, 17, 20, 33):
            b = asc(L0, q)
            b = b[:3] + [b[2]] + b[3:-1]
            lo, hi = b[0], b[-1]
            v = [x for x in range(int(lo) - 1, int(hi) + 3) if L0[0] != 'U' or x >= 0]
            add('into %d' % q, v, b)
        if isf(L0):
            add('1 into 2 nan', names('a', 1), names('b', 2), nan=True, sorted=1)
            add('2 into 1 nan', names('a', 2), names('b', 1), nan=True, sorted=1)
            add('1 into 17 nan', names('a', 1), asc(L0, 17), nan=True)
    elif n.startswith('__Lookup'):
        if L0 == 'String':
            for x in ((), (1,), (2, 1), (0, 1)):
                for y in ((), (1,), (1, 1), (0, 2, 1)):
                    add('%s in %s' % (x, y), strs('a', x), strs('b', y))
        else:
            for m in (0, 1, 2):
                for q in (0, 1, 2, 3):
                    add('%d in %d' % (m, q), names('a', m), names('b', q))
            add('9 in 9', seqvals(L0, 9, 2), seqvals(L0, 9))
    elif n == 'StringConcat':
        for p in (0, 1, 2, 3):
            for q in (0, 1, 2, 3):
                add('%d,%d' % (p, q), names('a', p), names('b', q))
        for x, y in ((MISS, MISS), (MISS, 1), (1, MISS), (0x80000000, 0x80000000)):
            add('lengths %d+%d' % (x, y), names('a', 1), names('b', 1), huge=(x, y))
    elif n in ('StringCmp', 'StringContains'):
        for p in (0, 1, 2, 3):
            for q in (0, 1, 2) + ((3,) if n == 'StringCmp' else ()):
                add('%d,%d' % (p, q), names('a', p), names('b', q))
    elif n == 'CastString':
        add('opaque', 'a')
        if is_int(P[0]):
            for v in (0, 7, 255, 1 << w(P[0]) - 1, (1 << w(P[0])) - 1):
                if v < 1 << w(P[0]):
                    add('value %d' % v, v)
    elif n == 'CastStringList':
        for m in (0, 1, 2, 3):
            add('n=%d' % m, names('a', m))
    elif n.startswith('Cast') and P[0] == 'String':
        for m in (0, 1, 2, 3):
            add('length %d' % m, names('a', m))
    elif n.startswith('Cast') and P[0] == 'StringList':
        for ls in ((), (1,), (0,), (1, 2), (2, 0, 1)):
            add('lengths %s' % (ls,), strs('a', ls))
    elif n in ('CrossJoin', 'ZipConcat'):
        for x in ((), (1,), (0,), (1, 2), (2, 0, 1)):
            for y in ((), (2,), (0,), (1, 2), (0, 1, 1)):
                for sp in (0, 1, 2):
                    add('%s %s sep %d' % (x, y, sp), strs('a', x), strs('b', y), names('c', sp))
        if n == 'ZipConcat':
            for x, y, z in ((MISS, 1, 0), (1, MISS, 0), (MISS, 0, 1), (0, MISS, 1), (0x80000000, 0x80000000, 0), (0, 0x80000000, 0x80000000)):
                h = [HS(['h%d' % i], q) for i, q in enumerate((x, y, z))]
                add('strings of %d+%d+%d' % (x, z, y), [['a0'], h[0]], [['b0'], h[1]], h[2], err=True)
        if n == 'CrossJoin':
            add('70000x70000', strs('a', (1,)), strs('b', (1,)), names('c', 1), huge=(70000, 70000))
            add('65536x65536', strs('a', (1,)), strs('b', (1,)), names('c', 1), huge=(65536, 65536))
            for x, y, z in ((MISS, 1, 0), (1, MISS, 0), (MISS, 0, 1), (0, MISS, 1), (0x80000000, 0x80000000, 0), (0, 0x80000000, 0x80000000)):
                h = [HS(['h%d' % i], q) for i, q in enumerate((x, y, z))]
                add('strings of %d+%d+%d' % (x, z, y), [['a0'], h[0], []], [h[1], ['b0']], h[2], err=True)
            add('maxxmax', strs('a', (1,)), strs('b', (1,)), names('c', 1), huge=(MISS, MISS))
    else:
        return None
    return out


def long_scenarios(e, m):
    """Arguments of m elements, concrete where comparisons would otherwise have to be partitioned."""
    n = e.name
    P = [p for p in e.params if p != 'Ptr']
    L0 = elem(P[0]) if P[0].endswith('List') else None
    L1 = elem(P[1]) if len(P) > 1 and P[1].endswith('List') else None
    out = []

    def add(label, *args, **kw):
        out.append(Sc('long n=%d %s' % (m, label), list(args), **kw))

    def chars(k, i=0):
        return ['=' + chr(97 + (j * 7 + i) % 26) for j in range(k)]

    def texts(k, uniq=False):
        return [['=' + chr(97 + (i % 26)), '=' + chr(65 + (i // 26 if uniq else i) % 26), '=' + chr(48 + (i // 676 if uniq else 0))] for i in range(k)]

    def ramp(t, k):
        """Ascending, distinct where the type has room."""
        if t == 'String':
            return sorted(texts(k, True))
        if w(t) == 8:
            lo = 0 if t[0] == 'U' else -128
            return sorted(lo + i * 255 // max(k, 256) for i in range(k))
        return [float(i) if isf(t) else i for i in range(k)]
    pat = [(37 * i + 11) & 255 for i in range((m + 7) // 8)]
    if m % 8 and pat:
        pat[-1] &= (1 << m % 8) - 1
    if n.startswith('List') and n[4:] in ARITH:
        add('', names('a', m), ['b%d' % (i % 3) for i in range(m)] if L1 else 'b')
    elif n.startswith('List') and n[4:] in MATH or n.startswith('Cast') and L0 in NUMS and e.ret != 'StringList':
        add('', names('a', m))
    elif n == 'CastStringList':
        add('', ['a0'] * m)
    elif n in ('ListMin', 'ListMax') or n.startswith('If') and n[2:] in CMPS:
        v = seqvals(L0, m)
        add('', v, seqvals(L0, m, 1) if L1 else v[m // 2], *['c'][:len(P) - 2])
    elif n == 'IfByBitmap':
        add('', pat, *[names(c, m) if p.endswith('List') else c for c, p in zip('bc', P[1:])])
        add('all set', [255] * ((m + 7) // 8), *[names(c, m) if p.endswith('List') else c for c, p in zip('bc', P[1:])])
    elif n.startswith('Gen') and n[3:-6] in CMPS:
        v = seqvals(L0, m)
        add('', v, seqvals(L0, m, 1) if L1 else v[m // 2])
    elif n == 'FilterByBitmap':
        add('', names('a', m), pat, sum(bin(x).count('1') for x in pat))
        full = [255] * (m // 8) + ([(1 << m % 8) - 1] if m % 8 else [])
        add('all kept', names('a', m), full, m)
    elif n == 'CountBits':
        add('all set', [255] * m)
    elif n == 'MurmurHash3X8632':
        add('', seqvals(L0, m))
    elif n in ('Sum', 'Avg'):
        add('', names('a', m))
    elif n == 'SortedMedian':
        add('', sorted(seqvals(L0, m)))
    elif n in ('Max', 'Min', 'SortAsc', 'SortDesc', 'Median'):
        add('', seqvals(L0, m))
        add('ascending', ramp(L0, m))
    elif n in ('CountDistinct', 'Unique', 'GroupIndex'):
        add('distinct', ramp(L0, m))
        add('repeated', texts(m) if L0 == 'String' else seqvals(L0, m))
    elif n == 'GetAt':
        add('last', names('a', m), m - 1)
        add('past', names('a', m), m)
    elif n == 'ListConcat':
        add('', texts(m) if L0 == 'String' else names('a', m), texts(m + 1) if L0 == 'String' else names('b', m + 1))
    elif n == 'in':
        v = texts(m, True) if P[0] == 'String' else [1] * (m - 1) + [77]
        add('last', v[-1], v)
        add('absent', ['=!'] if P[0] == 'String' else 78, v)
    elif n == 'GroupCount':
        add('', list(range(m)))
    elif n in ('GroupKeys', 'GroupSum', 'GroupMax', 'GroupMin', 'GroupAvg'):
        v = seqvals(L0, m) if n in ('GroupMax', 'GroupMin') else texts(m) if L0 == 'String' else names('a', m)
        add('one group', v, [0] * m, 1)
        add('own groups', v, list(range(m)), m)
        add('fewer distinct', v, list(range(m)), m - 1)
    elif n in ('Find', 'FindSorted'):
        v = ramp(L0, m)
        for i in (0, m // 2, m - 1):
            add('value at %d' % i, v, v[i])
        add('absent', v, ['=!'] if L0 == 'String' else 120 if w(L0) == 8 and isinstance(v[0], int) and 120 not in v else m if w(L0) > 8 else v[-1])
    elif n in ('ListCompactPositions', 'ListCompactIndex'):
        add('hits', list(range(m)))
        add('mixed', [MISS if i % 3 == 1 else m - i for i in range(m)])
    elif n == 'ListGather':
        add('reversed', texts(m) if L0 == 'String' else names('a', m), [m - 1 - i for i in range(m)] + [m, MISS], ['=q'] if L0 == 'String' else 'c')
    elif n == 'Bucketize':
        b = ramp(L0, m)
        add('boundaries', [b[-1], b[0], b[m // 2], b[-2]], b)
        add('values', b, [b[0], b[m // 2], b[-1]])
    elif n.startswith('__Lookup'):
        v = ramp(L0, m)
        add('all', v[::-1] if L0 == 'String' or w(L0) > 8 else [v[-1], v[0]], v)
        add('none', [['=!']] if L0 == 'String' else [m] if w(L0) > 8 else [], v)
    elif n == 'StringConcat':
        add('', names('a', m), names('b', m + 1))
    elif n == 'StringCmp':
        s = chars(m)
        add('equal', s, list(s))
        add('last less', s, s[:-1] + ['=~'])
        add('prefix', s, s + ['=a'])
    elif n == 'StringContains':
        s = chars(m)
        add('end', s, s[-3:-1] + ['=!'])
        add('at end', s[:-2] + ['=!', '=?'], ['=!', '=?'])
    elif n.startswith('Cast') and P[0] == 'StringList':
        add('', [['a0']] * m)
    elif n == 'CrossJoin':
        add('', texts(m), texts(2), ['c0'])
        add('long strings', [chars(m)], [chars(m + 1, 3)], names('c', m))
    elif n == 'ZipConcat':
        add('', texts(m), texts(m)[::-1], ['c0'])
        add('long strings', [chars(m)], [chars(m + 1, 3)], names('c', m))
    return out


def mism(add, P, k_):
    for p, q in ((1, 2), (2, 1), (0, 1), (1, 0), (8, 9), (9, 8)):
        add('lengths %d,%d' % (p, q), names('a', p), names('b', q))
