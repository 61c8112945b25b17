"""Every constant written in a program has exactly its written value, whatever other constants the program has."""
import itertools
import math
import struct
from .p08 import *
from ..cg import *

EXPLAIN = ('The code generator is evaluated on constant nodes of every alternative, alone and after other constants of the same compilation; the emitted constant '
           'is decoded through its global initialiser and compared, bit for bit, with the node\'s value.')
ASSUME = ['list and string lengths 0 to 4, 300 and 66003; sequences of two and three constants', 'LLVM places the initialiser of a private constant global in memory as written']


class Bad(Exception):
    pass


def bits_of(t, v):
    """Stored bits of numeric value v of type t."""
    if isinstance(v, Sym):
        return v.t
    if t == 'F32':
        return struct.pack('<f', v)
    if t == 'F64':
        return struct.pack('<d', v)
    return v & ((1 << width(t)) - 1)


def dec_num(c, t):
    if not isinstance(c, LV) or c.op != 'const':
        raise Bad('element is %r, not a constant' % (c,))
    if c.ty != LTY[t]:
        raise Bad('constant of type %s instead of %s' % (c.ty, LTY[t]))
    return dec_raw(c.kw['v'], t)


def dec_raw(v, t):
    if isinstance(v, tuple) and v and v[0] == 'sym':
        v = Sym(v[1])
    if isinstance(v, Sym):
        x = v.t   # widening and back is the element itself
        while isinstance(x, tuple) and len(x) == 3 and x[0] in ('trunc', 'sext', 'zext') and isinstance(x[2], tuple) and \
                (x[0] != 'trunc' or x[1] >= width(t)):
            x = x[2]
        return x
    if t in ('F32', 'F64'):
        if not isinstance(v, float):
            raise Bad('floating constant %r' % (v,))
        return struct.pack('<f' if t == 'F32' else '<d', v)
    return v & ((1 << width(t)) - 1)


def dec_len(c):
    if not isinstance(c, LV) or c.op != 'const' or c.ty != LTY['U32'] or not isinstance(c.kw['v'], int):
        raise Bad('length is %r' % (c,))
    return c.kw['v']


def payload(c, n, et, esize):
    """Initialiser elements behind pointer constant c for n elements of LLVM type et (None when null)."""
    if c.op == 'nullptr':
        if n:
            raise Bad('null data for %d elements' % n)
        return []
    g = c
    if c.op == 'constgep':
        g, idx = c.args[0], c.args[1:]
        if any(not isinstance(i, LV) or i.op != 'const' or i.kw['v'] != 0 for i in idx):
            raise Bad('data pointer into the middle of a constant')
    if not isinstance(g, LGlobal):
        raise Bad('data pointer is %s' % c.op)
    i = g.init
    if i is None:
        raise Bad('data global has no initialiser')
    if i.ty != g.vt:
        raise Bad('global of type %s initialised with %s' % (g.vt, i.ty))
    if i.ty.k != 'array' or i.ty.elts[0] != et:
        raise Bad('data of type %s instead of %s elements' % (i.ty, et))
    if i.ty.n < n:
        raise Bad('%d elements stored for a length of %d' % (i.ty.n, n))
    al = g.align
    if al is not None and (not isinstance(al, int) or al % esize):
        raise Bad('data aligned to %s for elements of %d bytes' % (al, esize))
    return list(i.kw['v'] if i.op == 'constdata' else i.args)[:n]


def decode(v, t):
    """Value denoted by constant v of type t."""
    if not isinstance(v, LV):
        raise Bad('no value')
    if t in NUMS:
        return dec_num(v, t)
    if v.op != 'conststruct' or len(v.args) != 2:
        raise Bad('value is %s, not a constant' % v.op)
    n = dec_len(v.args[1])
    p = v.args[0]
    if t == 'String':
        return tuple(dec_raw(x, 'U8') for x in payload(p, n, LTY['U8'], 1))
    if t == 'StringList':
        return tuple(decode(x, 'String') for x in payload(p, n, PAIR, 8))
    e = elem(t)
    return tuple((dec_raw(x, e) if not isinstance(x, LV) else dec_num(x, e)) for x in payload(p, n, LTY[e], width(e) // 8))


def meaning(t, v):
    if t in NUMS:
        return bits_of(t, v)
    if t == 'String':
        return tuple(bits_of('U8', x) if isinstance(x, Sym) else x for x in v)
    if t == 'StringList':
        return tuple(meaning('String', x) for x in v)
    return tuple(bits_of(elem(t), x) for x in v)


def text(v):
    return ''.join(charof(x) for x in v)


def run(ctx):
    w = CGCheck(ctx)
    it = w.it
    la = [d for d in w.p.fdecls.values() if d.ctor and d.cls is not None and d.cls.q == NS + 'ConstantValueNode' and not d.copyctor and
          not d.movector and d.p and not d.deleted]
    sc_alts = w.m.alts(la[0].p[0])
    lb = [d for d in w.p.fdecls.values() if d.ctor and d.cls is not None and d.cls.q == NS + 'ConstantListValueNode' and not d.copyctor and
          not d.movector and d.p and not d.deleted]
    ls_alts = w.m.alts(lb[0].p[0])

    def name_of(t):
        s = t.s.replace('const ', '')
        if s in LETTER:
            return LETTER[s]
        if 'basic_string' in s and 'vector' not in s:
            return 'String'
        if 'vector' in s:
            return name_of(t.ta[0][1]) + 'List'
        raise Broken('constant alternative %s' % s)
    sc = {name_of(t): i for i, t in enumerate(sc_alts)}
    ls = {name_of(t): i for i, t in enumerate(ls_alts)}

    def node(t, v):
        if t in NUMS or t == 'String':
            return 'ConstantValueNode', w.new('ConstantValueNode', Variant(sc_alts, sc[t], Cell(text(v) if t == 'String' else v)))
        if t == 'StringList':
            c = Vec([Cell(text(x)) for x in v])
        else:
            c = Vec([Cell(x) for x in v])
        return 'ConstantListValueNode', w.new('ConstantListValueNode', Variant(ls_alts, ls[t], Cell(c)))
    cnt = [0]
    # floats hold float values: round the sample values
    def f32(x):
        return struct.unpack('<f', struct.pack('<f', x))[0]
    INF, NAN = math.inf, math.nan
    FV = [0.0, -0.0, 1.0, -1.5, 0.1, INF, -INF, NAN, 5e-324, 1.7976931348623157e308, 2.0 ** 53 + 2, 16777217.0]
    num = {}
    for t in NUMS:
        if t == 'F32':
            num[t] = [f32(x) if abs(x) < 3e38 or x != x or math.isinf(x) else f32(3.4028234e38) for x in FV]
        elif t == 'F64':
            num[t] = FV
        else:
            b = width(t)
            lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if t[0] == 'I' else (0, (1 << b) - 1)
            num[t] = sorted({lo, lo + 1, 0, 1, 2, hi - 1, hi, hi // 2 + 1, 0x55555555555555 & hi, -1 if lo else hi})

    def check(rule, inst, seq):
        """Generates the constants of seq in one compilation; each must keep its value."""
        loc = [None]

        def thunk():
            w.context()
            vals = []
            for t, v in seq:
                cls, n = node(t, v)
                st, f = w.visit('CodeGen', w.cgc, cls, n)
                loc[0] = (f.file, f.line)
                if w.status(st) != 'OK':
                    return '%s constant not generated (%s)' % (t, w.status(st))
                vals.append(w.value)
            for (t, v), x in zip(seq, vals):
                try:
                    got = decode(x, t)
                except Bad as b:
                    return '%s: %s' % (t, b)
                if got != meaning(t, v):
                    return '%s constant %s denotes %s' % (t, short(meaning(t, v)), short(got))
            return None
        for o in it.explore(thunk):
            cnt[0] += 1
            mal = [x for x in o['events'] if x['kind'] in ('malformed', 'nullderef', 'oob', 'uninit')]
            why = o['ret'] if o['kind'] == 'ret' else '%s %s' % (o['kind'], o.get('why'))
            if mal:
                why = '%s %s' % (mal[0]['kind'], mal[0].get('what'))
            ctx.ob(rule, inst, why is None, loc[0], why)
    for t in sc:
        if t == 'String':
            for k in (0, 1, 2, 4):
                check('string', 'length %d' % k, [(t, [Sym(('ch', i), w.p.types['char']) for i in range(k)])])
            for v in ([0], [97, 0, 98], [0, 0], [255, 128, 127], [97] * 300, [97, 98, 0] * 22001):
                check('string', 'bytes %s' % short(v), [(t, v)])
        else:
            for v in num[t]:
                check('scalar', '%s %r' % (t, v), [(t, v)])
    for t in ls:
        if t == 'StringList':
            for v in ([], [[]], [[97]], [[97], []], [[], [97, 0]], [[97], [97]], [[98, 99], [98], [98, 99, 0], [0]], [[120] * 300, [120] * 299], [[i & 255] * (i % 3) for i in range(700)]):
                check('list', 'StringList %s' % short(v), [(t, v)])
        else:
            for k in (0, 1, 2, 3, 4):
                check('list', '%s length %d' % (t, k), [(t, [Sym(('el', i), {x.s: x for x in [ls_alts[ls[t]].ta[0][1]]}[ls_alts[ls[t]].ta[0][1].s]) for i in range(k)])])
            check('list', t + ' boundary values', [(t, num[elem(t)])])
            check('list', t + ' length 300', [(t, [num[elem(t)][i % 3] for i in range(300)])])
            check('list', t + ' length 66003', [(t, [num[elem(t)][i % 3] for i in range(66003)])])
    # constants of one compilation keep apart
    pool = [('String', []), ('String', [97]), ('String', [97, 0]), ('String', [0]), ('String', [97, 98]), ('StringList', []), ('StringList', [[97]]),
            ('StringList', [[97, 98]]), ('StringList', [[97], [98]]), ('StringList', [[]]), ('StringList', [[97], [0]])]
    for t in ls:
        e = elem(t) if t != 'StringList' else None
        if e in ('F32', 'F64'):
            pool += [(t, v) for v in ([], [0.0], [-0.0], [NAN], [1.0], [-NAN], [0.0, 1.0], [1.0, 0.0], [1.0, -0.0], [NAN, 1.0], [NAN, 2.0])]
        elif e:
            pool += [(t, v) for v in ([], [0], [1], [2, 1], [1, 2], [1, 2, 3], [127])]
    for t in NUMS:
        pool += [(t, num[t][1]), (t, num[t][0])]
    for a, b in itertools.product(pool, pool):
        if a[0] != b[0] and not ctx.thorough and (len(a[1]) if isinstance(a[1], list) else 0) > 1:
            continue
        check('sequence', '%s %s then %s %s' % (a[0], short(a[1]), b[0], short(b[1])), [a, b])
    fl = [('F64List', v) for v in ([0.0], [-0.0], [NAN], [1.0], [2.0])] + [('F32List', [1.0]), ('StringList', [[97]]), ('StringList', [[98]]), ('String', [97]), ('U8List', [97])]
    for a in itertools.product(fl, repeat=3):
        check('sequence', ' then '.join('%s %s' % (t, short(v)) for t, v in a), list(a))
    ctx.stats.update(constants=cnt[0], functions=len(it.visited_funcs))
    ctx.need('scalar', 80)
    ctx.need('list', 60)
    ctx.need('sequence', 1000)


def short(v):
    s = str(v)
    return s if len(s) < 48 else s[:45] + '...'
