"""Typed value domain of the kernel analysis: hash-consed terms over machine integers and IEEE floats in a normal form
(polynomials modulo 2^w for ring operations, per-bit form for shifts and bitwise operations, ordered applications for the
rest), and the order/equality facts a trace partition has assumed about them.  No solver: every constructor rewrites to a
normal form and facts are closed by reachability."""
import struct

from .prog import Broken

N = []
W = []
F = []
_ID = {}


def mk(node, w, f=False):
    i = _ID.get(node)
    if i is None:
        i = _ID[node] = len(N)
        N.append(node)
        W.append(w)
        F.append(f)
    return i


def const(v, w):
    return mk(('c', w, v & ((1 << w) - 1)), w)


def rnd(v, w):
    if w == 32:
        try:
            return struct.unpack('<f', struct.pack('<f', v))[0]
        except OverflowError:
            return float('inf') if v > 0 else float('-inf')
    return v


def fconst(v, w):
    return mk(('fc', w, repr(rnd(float(v), w))), w, True)


def var(name, w, f=False):
    return mk(('fv' if f else 'v', name, w), w, f)


def cval(i):
    """Unsigned value of a constant integer term, or None."""
    n = N[i]
    return n[2] if n[0] == 'c' else None


def sval(i):
    n = N[i]
    if n[0] != 'c':
        return None
    return n[2] - (1 << n[1]) if n[2] >> (n[1] - 1) else n[2]


def fval(i):
    n = N[i]
    return float(n[2]) if n[0] == 'fc' else None


# ---- polynomials modulo 2^w ----
def topoly(i):
    n = N[i]
    if n[0] == 'c':
        return {(): n[2]} if n[2] else {}
    if n[0] == 'poly':
        return dict(n[2])
    return {(i,): 1}


def mkpoly(w, d):
    m = (1 << w) - 1
    d = {k: v & m for k, v in d.items() if v & m}
    if not d:
        return const(0, w)
    if len(d) == 1:
        (k, v), = d.items()
        if k == ():
            return const(v, w)
        if v == 1 and len(k) == 1:
            return k[0]
    return mk(('poly', w, tuple(sorted(d.items()))), w)


def add(a, b):
    d = topoly(a)
    for k, v in topoly(b).items():
        d[k] = d.get(k, 0) + v
    return mkpoly(W[a], d)


def neg(a):
    return mkpoly(W[a], {k: -v for k, v in topoly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    d = {}
    for k, v in topoly(a).items():
        for l, u in topoly(b).items():
            m = tuple(sorted(k + l))
            d[m] = d.get(m, 0) + v * u
    return mkpoly(W[a], d)


# ---- bits ----
ZERO = const(0, 1)
ONE = const(1, 1)


def bit(x, i):
    w = W[x]
    if w == 1:
        return x
    n = N[x]
    o = n[0]
    if o == 'c':
        return ONE if n[2] >> i & 1 else ZERO
    if o == 'bits':
        return n[2][i]
    if o == 'zext':
        return bit(n[2], i) if i < W[n[2]] else ZERO
    if o == 'sext':
        return bit(n[2], min(i, W[n[2]] - 1))
    if o == 'poly' and w > i + 1 and i == 0:
        # lowest bit of a sum: parity of the lowest bits
        r = ZERO
        for k, v in n[2]:
            if v & 1:
                t = ONE
                for y in k:
                    t = band(t, bit(y, 0))
                r = bxor(r, t)
        return r
    return mk(('bit', x, i), 1)


def bits(x):
    return tuple(bit(x, i) for i in range(W[x]))


def frombits(bs):
    bs = tuple(bs)
    w = len(bs)
    if w == 1:
        return bs[0]
    if all(N[b][0] == 'c' for b in bs):
        return const(sum(cval(b) << i for i, b in enumerate(bs)), w)
    n = N[bs[0]]
    y = None
    if n[0] == 'bit' and n[2] == 0:
        y = n[1]
    elif n[0] != 'c' and all(b == bs[1] for b in bs[1:]) and bs[1] in (ZERO, bs[0]):
        y = bs[0]
    if y is not None:
        wy = W[y]
        k = 0
        while k < w and k < wy and bs[k] == bit(y, k):
            k += 1
        if k == w and w == wy:
            return y
        if k == wy:
            if all(b == ZERO for b in bs[k:]):
                return mk(('zext', w, y), w)
            if all(b == bs[k - 1] for b in bs[k:]):
                return mk(('sext', w, y), w)
    return mk(('bits', w, bs), w)


def zext(x, w):
    n = N[x]
    if W[x] == w:
        return x
    if n[0] == 'c':
        return const(n[2], w)
    if n[0] == 'zext':
        return zext(n[2], w)
    if n[0] == 'bits':
        return frombits(n[2] + (ZERO,) * (w - W[x]))
    return mk(('zext', w, x), w)


def sext(x, w):
    n = N[x]
    if W[x] == w:
        return x
    if n[0] == 'c':
        return const(sval(x), w)
    if n[0] in ('zext', 'sext'):
        return (zext if n[0] == 'zext' else sext)(n[2], w)
    if n[0] == 'bits':
        return frombits(n[2] + (n[2][-1],) * (w - W[x]))
    return mk(('sext', w, x), w)


def trunc(x, w):
    if W[x] == w:
        return x
    n = N[x]
    o = n[0]
    if o == 'c':
        return const(n[2], w)
    if o == 'poly':
        d = {}
        for k, v in n[2]:
            t = const(v, w)
            for y in k:
                t = mul(t, trunc(y, w))
            for m, c in topoly(t).items():
                d[m] = d.get(m, 0) + c
        return mkpoly(w, d)
    if o in ('zext', 'sext'):
        y = n[2]
        if W[y] >= w:
            return trunc(y, w)
        return (zext if o == 'zext' else sext)(y, w)
    if o == 'op' and n[1] in ('sdiv', 'srem'):
        a, b = narrow_s(n[3], w), narrow_s(n[4], w)
        if a is not None and b is not None:
            return op(n[1], w, a, b)
    return frombits(bits(x)[:w])


def narrow_s(x, w):
    """The w-bit value x is the sign extension of, or None."""
    n = N[x]
    if n[0] == 'c':
        v = sval(x)
        return const(v, w) if -(1 << w - 1) <= v < 1 << w - 1 else None
    if n[0] == 'sext' and W[n[2]] <= w:
        return sext(n[2], w)
    if n[0] == 'zext' and W[n[2]] < w:
        return zext(n[2], w)
    return None


def narrow_u(x, w):
    n = N[x]
    if n[0] == 'c':
        return const(n[2], w) if n[2] < 1 << w else None
    if n[0] == 'zext' and W[n[2]] <= w:
        return zext(n[2], w)
    return None


def _flat(o, xs):
    out = []
    for x in xs:
        n = N[x]
        out += n[1] if n[0] == o else (x,)
    return out


def band(*xs):
    s = set(_flat('band', xs))
    if ZERO in s:
        return ZERO
    s.discard(ONE)
    if any(bnot(x) in s for x in s if N[x][0] != 'bxor'):
        return ZERO
    if not s:
        return ONE
    if len(s) == 1:
        return s.pop()
    return mk(('band', tuple(sorted(s))), 1)


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bxor(*xs):
    s = set()
    for x in _flat('bxor', xs):
        s ^= {x}
    p = ONE in s
    s -= {ONE, ZERO}
    if not s:
        return ONE if p else ZERO
    if len(s) == 1 and not p:
        return s.pop()
    return mk(('bxor', tuple(sorted(s)) + ((ONE,) if p else ())), 1)


def bnot(x):
    return bxor(x, ONE)


def bitwise(o, a, b):
    f = {'&': band, '|': bor, '^': bxor}[o]
    if W[a] != W[b]:
        raise Broken('bitwise operands of width %d and %d' % (W[a], W[b]))
    return frombits([f(x, y) for x, y in zip(bits(a), bits(b))])


def shl(x, k):
    w = W[x]
    n = N[x]
    if n[0] == 'poly':
        return mul(x, const(1 << k, w)) if k < w else const(0, w)
    return frombits((ZERO,) * k + bits(x)[:w - k])


def shr(x, k, signed):
    w = W[x]
    b = bits(x)
    return frombits(b[k:] + ((b[-1] if signed else ZERO),) * k)


# ---- other operations ----
COMM = {'fadd', 'fmul'}


def op(name, w, *a):
    a = tuple(a)
    isf = name[0] == 'f' and name in FOPS or name in ('uitofp', 'sitofp') or name.startswith('fm:')
    if name in COMM:
        a = tuple(sorted(a))
    if name in FOLD and all(isinstance(x, int) and N[x][0] in ('c', 'fc') for x in a):
        r = FOLD[name](w, *a)
        if r is not None:
            return r
    if name in ('udiv', 'urem', 'sdiv', 'srem'):
        # operands extended from a narrower type: operate there
        if N[a[1]][0] == 'c' and cval(a[1]) == 1 and name[1:] == 'div':
            return a[0]
        ws = [W[N[x][2]] for x in a if N[x][0] in ('zext', 'sext')]
        if ws:
            m = max(ws)
            u = [narrow_u(x, m) for x in a]
            if None not in u:
                return zext(op('u' + name[1:], m, *u), w)
            if name == 'srem':
                s = [narrow_s(x, m) for x in a]
                if None not in s:
                    return sext(op('srem', m, *s), w)
    if name == 'fadd':
        for x, y in (a, a[::-1]):
            if fval(x) == 0.0 and not repr(fval(x)).startswith('-'):
                return y
    if name == 'fptrunc':
        n = N[a[0]]
        if n[0] == 'op' and n[1] == 'fpext' and W[n[3]] == w:
            return n[3]
        if W[a[0]] == w:
            return a[0]
    if name == 'fpext' and W[a[0]] == w:
        return a[0]
    if name in ('sitofp', 'uitofp'):
        n = N[a[0]]
        if n[0] == 'zext':
            return op('uitofp', w, n[2])
        if name == 'sitofp' and n[0] == 'sext':
            return op('sitofp', w, n[2])
    return mk(('op', name, w) + a, w, isf)


FOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fpext', 'fptrunc'}


def _div(w, a, b, s, rem):
    x, y = (sval(a), sval(b)) if s else (cval(a), cval(b))
    if y == 0:
        return None
    q = abs(x) // abs(y)
    if (x < 0) != (y < 0):
        q = -q
    return const(x - q * y if rem else q, w)


FOLD = {
    'sdiv': lambda w, a, b: _div(w, a, b, True, False), 'srem': lambda w, a, b: _div(w, a, b, True, True),
    'udiv': lambda w, a, b: _div(w, a, b, False, False), 'urem': lambda w, a, b: _div(w, a, b, False, True),
    'sitofp': lambda w, a: fconst(sval(a), w), 'uitofp': lambda w, a: fconst(cval(a), w),
    'fpext': lambda w, a: fconst(fval(a), w), 'fptrunc': lambda w, a: fconst(fval(a), w),
    'fadd': lambda w, a, b: fconst(fval(a) + fval(b), w), 'fsub': lambda w, a, b: fconst(fval(a) - fval(b), w),
    'fmul': lambda w, a, b: fconst(fval(a) * fval(b), w),
    'fdiv': lambda w, a, b: fconst(fval(a) / fval(b), w) if fval(b) else None,
    'fneg': lambda w, a: fconst(-fval(a), w),
}


def cat(parts):
    """Little-endian concatenation of integer terms."""
    bs = ()
    for p in parts:
        bs += bits(p)
    return frombits(bs)


def popcount(x, w=32):
    """Number of ones, as a sum over bytes so that differently grouped counts meet."""
    b = bits(x)
    r = const(0, w)
    for i in range(0, len(b), 8):
        y = frombits(b[i:i + 8])
        n = N[y]
        if n[0] == 'c':
            r = add(r, const(bin(n[2]).count('1'), w))
            continue
        if n[0] == 'zext':
            y = n[2]
        r = add(r, zext(y, w) if W[y] == 1 else mk(('op', 'popcnt', w, y), w))
    return r


# ---- comparisons ----
def single(x):
    """The only undetermined 1-bit term x depends on, if x is a simple function of one."""
    n = N[x]
    if W[x] == 1 and not F[x]:
        return x if n[0] != 'c' else None
    if n[0] in ('zext', 'sext') or n[0] == 'op' and n[1] in ('uitofp', 'sitofp'):
        return single(n[3] if n[0] == 'op' else n[2])
    if n[0] == 'bits':
        u = {y for y in n[2] if N[y][0] != 'c'}
        if len(u) == 1:
            return u.pop()
    return None


def at(x, v):
    """Value of such an x when its bit is v."""
    n = N[x]
    if W[x] == 1 and not F[x]:
        return const(v, 1)
    if n[0] == 'op':
        return op(n[1], n[2], at(n[3], v))
    if n[0] == 'bits':
        return const(sum((cval(y) if N[y][0] == 'c' else v) << i for i, y in enumerate(n[2])), n[1])
    return (zext if n[0] == 'zext' else sext)(at(n[2], v), W[x])


def _onebit(f, a, b):
    ca, cb = N[a][0] in ('c', 'fc'), N[b][0] in ('c', 'fc')
    s = single(b) if ca else (single(a) if cb else None)
    if s is None:
        return None
    r = [f(at(a, v) if cb else a, at(b, v) if ca else b) for v in (0, 1)]
    if any(N[x][0] != 'c' for x in r):
        return None
    if r[0] == r[1]:
        return r[0]
    return s if r[1] == ONE else bnot(s)


def fext(x):
    n = N[x]
    return n[3] if n[0] == 'op' and n[1] == 'fpext' else None


def narrow_pair(dom, a, b):
    """Equivalent comparison on the operands before both were widened, (dom, a, b), or a truth value."""
    if dom == 'f':
        for x, y in ((a, b), (b, a)):
            u = fext(x)
            if u is not None:
                v = fext(y)
                if v is not None and W[u] == W[v]:
                    return ('f', u, v) if x == a else ('f', v, u)
                c = fval(y)
                if c is not None and rnd(c, W[u]) == c:
                    v = fconst(c, W[u])
                    return ('f', u, v) if x == a else ('f', v, u)
        return None
    ws = [W[N[x][2]] for x in (a, b) if N[x][0] in ('zext', 'sext')]
    if not ws:
        return None
    m = max(ws)
    if m >= W[a]:
        return None
    u = [narrow_u(x, m) for x in (a, b)]
    if None not in u:
        return ('u',) + tuple(u)
    if dom == 's':
        s = [narrow_s(x, m) for x in (a, b)]
        if None not in s:
            return ('s',) + tuple(s)
    return None


def rng(dom, x):
    """Range of the values of x, from its shape."""
    n = N[x]
    w = W[x]
    if n[0] == 'c':
        v = sval(x) if dom == 's' else cval(x)
        return v, v
    if n[0] == 'zext':
        return 0, (1 << W[n[2]]) - 1
    if n[0] == 'sext' and dom == 's':
        return -(1 << W[n[2]] - 1), (1 << W[n[2]] - 1) - 1
    return (-(1 << w - 1), (1 << w - 1) - 1) if dom == 's' else (0, (1 << w) - 1)


def lt(dom, a, b):
    if a == b:
        return ZERO
    r = _onebit(lambda x, y: lt(dom, x, y), a, b)
    if r is not None:
        return r
    if dom == 'f':
        x, y = fval(a), fval(b)
        if x is not None and y is not None:
            return ONE if x < y else ZERO
    else:
        (al, ah), (bl, bh) = rng(dom, a), rng(dom, b)
        if ah < bl:
            return ONE
        if al >= bh:
            return ZERO
    p = narrow_pair(dom, a, b)
    if p is not None:
        return lt(*p)
    return mk(('lt', dom, a, b), 1)


def eq(a, b):
    f = F[a]
    if a == b and not f:
        return ONE
    r = _onebit(eq, a, b)
    if r is not None:
        return r
    if f:
        x, y = fval(a), fval(b)
        if x is not None and y is not None:
            return ONE if x == y else ZERO
    else:
        if W[a] == 1:
            return bnot(bxor(a, b))
        x, y = cval(a), cval(b)
        if x is not None and y is not None:
            return ONE if x == y else ZERO
        if x is not None:
            a, b, x, y = b, a, y, x
        if y is not None:
            (ul, uh), (sl, sh) = rng('u', a), rng('s', a)
            if not ul <= y <= uh or not sl <= sval(b) <= sh:
                return ZERO
            if N[a][0] == 'bits' or isbits(a):
                return band(*[p if y >> i & 1 else bnot(p) for i, p in enumerate(bits(a))])
    p = narrow_pair('f' if f else 's', a, b) or (None if f else narrow_pair('u', a, b))
    if p is not None:
        return eq(p[1], p[2])
    return mk(('eq',) + tuple(sorted((a, b))), 1)


def isbits(x):
    """Variables named with a leading # are analysed bit by bit."""
    n = N[x]
    return n[0] == 'v' and n[1].startswith('#') or n[0] in ('zext', 'sext') and isbits(n[2])


# ---- rebuilding under assumptions ----
def rebuild(x, leaf, memo):
    r = memo.get(x)
    if r is not None:
        return r
    n = N[x]
    o = n[0]
    if o in ('c', 'fc'):
        r = x
    elif o in ('v', 'fv'):
        r = leaf(x)
    elif W[x] == 1 and not F[x] and leaf(x) != x:
        r = leaf(x)
    elif o == 'poly':
        r = const(0, W[x])
        for k, v in n[2]:
            t = const(v, W[x])
            for y in k:
                t = mul(t, rebuild(y, leaf, memo))
            r = add(r, t)
    elif o == 'bits':
        r = frombits([rebuild(b, leaf, memo) for b in n[2]])
    elif o == 'zext':
        r = zext(rebuild(n[2], leaf, memo), W[x])
    elif o == 'sext':
        r = sext(rebuild(n[2], leaf, memo), W[x])
    elif o == 'bit':
        r = bit(rebuild(n[1], leaf, memo), n[2])
    elif o in ('band', 'bxor'):
        r = (band if o == 'band' else bxor)(*[rebuild(b, leaf, memo) for b in n[1]])
    elif o == 'lt':
        r = lt(n[1], rebuild(n[2], leaf, memo), rebuild(n[3], leaf, memo))
    elif o == 'eq':
        r = eq(rebuild(n[1], leaf, memo), rebuild(n[2], leaf, memo))
    elif o == 'op':
        a = [rebuild(y, leaf, memo) if isinstance(y, int) else y for y in n[3:]]
        r = popcount(a[0], W[x]) if n[1] == 'popcnt' else op(n[1], n[2], *a)
    else:
        raise Broken('term ' + o)
    memo[x] = r
    return r


def leaves(x, out=None):
    """Undetermined leaves of a term: variables, or single bits of bit-wise variables and comparisons."""
    if out is None:
        out = set()
    n = N[x]
    o = n[0]
    if o in ('v', 'fv', 'lt', 'eq', 'bit'):
        out.add(x)
    elif o == 'poly':
        for k, v in n[2]:
            for y in k:
                leaves(y, out)
    elif o in ('bits', 'band', 'bxor'):
        for y in n[-1]:
            leaves(y, out)
    elif o in ('zext', 'sext'):
        leaves(n[2], out)
    elif o == 'op':
        for y in n[3:]:
            if isinstance(y, int):
                leaves(y, out)
    return out


def extreme(dom, x, top):
    """Whether constant x is the least (top: greatest) value of its type."""
    if N[x][0] not in ('c', 'fc'):
        return False
    if dom == 'f':
        return fval(x) == (float('inf') if top else float('-inf'))
    return (sval(x) == ((1 << W[x] - 1) - 1 if top else -(1 << W[x] - 1))) if dom == 's' else cval(x) == (((1 << W[x]) - 1) if top else 0)


class Facts:
    """Assumptions of one trace partition."""

    def __init__(self, choose, nan=False):
        self.choose = choose
        self.nan = nan
        self.memo = {}
        self.nans = {}
        self.f = []        # (kind, dom, a, b): lt, le, eq, ne
        self.gen = 0
        self._clo = {}
        self._sub = (-1, None)

    def decide(self, x):
        n = N[x]
        if n[0] == 'c':
            return bool(n[2])
        r = self.memo.get(x)
        if r is not None:
            return r
        o = n[0]
        if o == 'band':
            r = all(self.decide(y) for y in n[1])
        elif o == 'bxor':
            r = False
            for y in n[1]:
                r ^= self.decide(y)
        elif o == 'lt':
            r = self.q('lt', n[1], n[2], n[3])
        elif o == 'eq':
            r = self.q('eq', 'f' if F[n[1]] else 'i', n[1], n[2])
        elif o == 'bit':
            if not isbits(n[1]) and not N[n[1]][0] == 'op':
                y = self.sub(n[1])
                if y != n[1]:
                    return self.decide(bit(y, n[2]))
            r = self.choose(2, x) == 0
        elif o in ('v', 'op'):
            r = self.choose(2, x) == 0
        else:
            raise Broken('decision on ' + o)
        self.memo[x] = r
        self.gen += 1
        return r

    def isnan(self, x):
        n = N[x]
        if not self.nan or n[0] != 'fv':
            return False
        r = self.nans.get(x)
        if r is None:
            r = self.nans[x] = self.choose(2, ('nan', x)) == 1
            self.gen += 1
        return r

    def q(self, k, dom, a, b):
        if dom == 'f' and (self.isnan(a) or self.isnan(b)):
            return False
        if a == b:
            return k == 'eq'
        t = (k, dom, a, b)
        f = ('le', dom, b, a) if k == 'lt' else ('ne', dom, a, b)
        pt, pf = self.possible(t), self.possible(f)
        if pt and pf:
            v = self.choose(2, t) == 0
        elif pt or pf:
            v = pt
        else:
            raise Broken('contradictory assumptions')
        self.assume(t if v else f)
        return v

    def assume(self, t):
        if t[0] == 'le' and (extreme(t[1], t[3], 0) or extreme(t[1], t[2], 1)):
            t = ('eq', t[1] if t[1] == 'f' else 'i') + t[2:]
        self.f.append(t)
        self.gen += 1

    def possible(self, t):
        doms = ['f'] if t[1] == 'f' else (['u', 's'] if t[1] == 'i' else [t[1]])
        return all(self.close(d, t) is not None for d in doms)

    def close(self, dom, extra=None):
        key = (self.gen, dom, extra)
        r = self._clo.get(key, 0)
        if r != 0:
            return r
        r = self._close(dom, extra)
        if len(self._clo) > 2000:
            self._clo.clear()
        self._clo[key] = r
        return r

    def _close(self, dom, extra):
        fs = [t for t in self.f + ([extra] if extra else []) if t[1] == dom or t[1] == 'i' and dom != 'f']
        if extra is not None:
            # only the component of facts connected with the new one matters
            seen = {extra[2], extra[3]}
            n0 = -1
            while len(seen) != n0:
                n0 = len(seen)
                for t in fs:
                    u, v = t[2] in seen, t[3] in seen
                    if u != v:
                        seen.add(t[3] if u else t[2])
                for x in list(seen):
                    if N[x][0] in ('c', 'fc'):
                        for t in fs:
                            for y in t[2:]:
                                if N[y][0] in ('c', 'fc') and W[y] == W[x]:
                                    seen.add(y)
            fs = [t for t in fs if t[2] in seen]
        nodes = sorted({x for t in fs for x in t[2:]})
        ix = {x: i for i, x in enumerate(nodes)}
        n = len(nodes)
        r = [[0] * n for _ in range(n)]
        for i in range(n):
            r[i][i] = 1
        ne = []
        for k, d, a, b in fs:
            i, j = ix[a], ix[b]
            if k == 'lt':
                r[i][j] = 2
            elif k == 'le':
                r[i][j] = max(r[i][j], 1)
            elif k == 'eq':
                r[i][j] = max(r[i][j], 1)
                r[j][i] = max(r[j][i], 1)
            else:
                ne.append((i, j))
        cs = [x for x in nodes if N[x][0] in ('c', 'fc')]
        val = (lambda x: fval(x)) if dom == 'f' else (sval if dom == 's' else cval)
        for x in cs:
            for y in cs:
                if x != y and W[x] == W[y]:
                    if val(x) < val(y):
                        r[ix[x]][ix[y]] = 2
                    elif val(x) == val(y):
                        r[ix[x]][ix[y]] = max(r[ix[x]][ix[y]], 1)
        for k in range(n):
            rk = r[k]
            for i in range(n):
                if r[i][k]:
                    a = r[i][k]
                    ri = r[i]
                    for j in range(n):
                        if rk[j]:
                            v = 2 if a == 2 or rk[j] == 2 else 1
                            if v > ri[j]:
                                ri[j] = v
        for i in range(n):
            if r[i][i] == 2:
                return None
        for i, j in ne:
            if r[i][j] and r[j][i]:
                return None
        if dom != 'f':
            for x in nodes:
                if N[x][0] == 'c':
                    continue
                i = ix[x]
                lo, hi = rng(dom, x)
                ex = set()
                for c in cs:
                    if W[c] != W[x]:
                        continue
                    j = ix[c]
                    v = val(c)
                    if r[i][j]:
                        hi = min(hi, v - (r[i][j] == 2))
                    if r[j][i]:
                        lo = max(lo, v + (r[j][i] == 2))
                for a, b in ne:
                    for p, q in ((a, b), (b, a)):
                        if r[p][i] and r[i][p] and N[nodes[q]][0] == 'c':
                            ex.add(val(nodes[q]))
                if lo > hi:
                    return None
                if hi - lo <= 300 and all(v in ex for v in range(lo, hi + 1)):
                    return None
        return nodes, ix, r

    def rep(self, x):
        """Representative of x among the terms assumed equal to it (a constant if there is one)."""
        n = N[x]
        if W[x] == 1 and not F[x] and n[0] not in ('c', 'v'):
            v = self.memo.get(x)
            if v is not None:
                return ONE if v else ZERO
            return x
        if n[0] not in ('v', 'fv'):
            return x
        cand = [x]
        for dom in (['f'] if F[x] else ['u', 's']):
            c = self.close(dom)
            if c is None:
                raise Broken('contradictory assumptions')
            nodes, ix, r = c
            if x in ix:
                i = ix[x]
                cand += [y for y in nodes if r[i][ix[y]] and r[ix[y]][i]]
        for y in cand:
            if N[y][0] in ('c', 'fc'):
                return y
        if isbits(x):
            b = frombits([ONE if self.memo.get(p) else ZERO if self.memo.get(p) is not None else p for p in bits(x)])
            return b
        return min(y for y in cand if W[y] == W[x])

    def sub(self, x):
        if self._sub[0] != self.gen:
            self._sub = (self.gen, {})
        for _ in range(4):
            y = rebuild(x, self.rep, self._sub[1])
            if y == x:
                break
            x = y
        return x

    def same(self, a, b):
        """The two terms denote the same value under the assumptions."""
        if a == b:
            return True
        if W[a] != W[b] or F[a] != F[b]:
            return False
        a, b = self.sub(a), self.sub(b)
        if a == b:
            return True
        for dom in (['f'] if F[a] else ['u', 's']):
            c = self.close(dom)
            if c and a in c[1] and b in c[1] and c[2][c[1][a]][c[1][b]] and c[2][c[1][b]][c[1][a]]:
                return True
        return False


def show(x, d=6):
    if not isinstance(x, int):
        return str(x)
    n = N[x]
    o = n[0]
    if d == 0:
        return '..'
    if o == 'c':
        return str(n[2])
    if o == 'fc':
        return n[2]
    if o in ('v', 'fv'):
        return n[1].lstrip('#')
    if o == 'poly':
        return '(' + ' + '.join('*'.join(([str(v if v < 1 << W[x] - 1 else v - (1 << W[x]))] if v != 1 or not k else []) +
                                         [show(y, d - 1) for y in k]) for k, v in n[2]) + ')'
    if o == 'bits':
        return 'bits[%s]' % ' '.join(show(b, d - 1) for b in reversed(n[2])) if len(n[2]) <= 8 else 'bits%d[..]' % len(n[2])
    if o in ('zext', 'sext'):
        return '%s%d(%s)' % (o, W[x], show(n[2], d - 1))
    if o == 'bit':
        return '%s.%d' % (show(n[1], d - 1), n[2])
    if o in ('band', 'bxor'):
        return '(' + (' & ' if o == 'band' else ' ^ ').join(show(y, d - 1) for y in n[1]) + ')'
    if o == 'lt':
        return '(%s <%s %s)' % (show(n[2], d - 1), n[1], show(n[3], d - 1))
    if o == 'eq':
        return '(%s == %s)' % (show(n[1], d - 1), show(n[2], d - 1))
    return '%s%d(%s)' % (n[1], n[2], ', '.join(show(y, d - 1) for y in n[3:]))
