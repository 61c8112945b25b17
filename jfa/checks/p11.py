"""Conditional constructs evaluate exactly the selected arm, in order, once; the emitted control flow is well formed."""
from ..cg import *
from .p08 import promote

EXPLAIN = ('Abstract evaluation of the code generator\'s conditional visitors (if, switch, when block, and/or) on opaque '
           'operands for every condition type and every allowed arm type combination; from the emitted control flow graph '
           'the complete set of (condition outcomes -> operands evaluated, in order -> resulting term) is read off and '
           'compared with the construct\'s meaning; PHI/predecessor consistency and instruction typing are checked. Every '
           'operand moves the insertion point to a fresh block, so the argument covers nested control flow.')
ASSUME = ['LLVM instruction semantics', 'operands are opaque: nesting is covered because an operand may end in any block']


def chain(conds, cty, arms, atys, rt):
    """Expected cases of if/else-if chain: conds names, arms names (len(conds)+1)."""
    out = []
    pre, seen = [], []
    for c, ct, a, at in zip(conds, cty, arms, atys):
        t = truth(child(c, ct), ct)
        seen = seen + [c]
        out.append(case(pre + [(t, True)], seen + ([a] if a else []), None if rt is None else conv(child(a, at), at, rt)))
        pre = pre + [(t, False)]
    a = arms[len(conds)]
    out.append(case(pre, seen + ([a] if a else []), None if rt is None else conv(child(a, atys[-1]), atys[-1], rt)))
    return out


def run(ctx):
    w = CGCheck(ctx)
    up, st = w.up, w.stub

    def go(rule, cls, row, names, tys, rt, want):
        w.compare(rule, row, cls, lambda: w.new(cls, w.vec([up(st(n, t)) for n, t in zip(names, tys)])), rt, want)
    pairs = [(a, b) for a in NUMS for b in NUMS] + [(t, t) for t in VALUES if not is_num(t)]
    # if: condition types
    for c in NUMS:
        go('if', 'IfNode', 'if %s' % c, 'cte', [c, 'I32', 'I32'], 'I32', chain(['c'], [c], ['t', 'e'], ['I32', 'I32'], 'I32'))
    for a, b in pairs:
        rt = promote(a, b) if is_num(a) else a
        go('if', 'IfNode', 'if then %s else %s' % (a, b), 'cte', ['U8', a, b], rt, chain(['c'], ['U8'], ['t', 'e'], [a, b], rt))
    # switch
    nm = ['c0', 't0', 'c1', 't1', 'c2', 't2', 'c3', 't3']

    def sw(conds, arms, rt, row):
        n = len(conds)
        names = []
        tys = []
        for i in range(n):
            names += ['c%d' % i, 't%d' % i]
            tys += [conds[i], arms[i]]
        names.append('d')
        tys.append(arms[n])
        go('switch', 'SwitchNode', row, names, tys, rt,
           chain(['c%d' % i for i in range(n)], conds, ['t%d' % i for i in range(n)] + ['d'], arms, rt))
    for t in VALUES:
        sw([], [t], t, 'switch default only %s' % t)
    for c in NUMS:
        sw([c], ['I32', 'I32'], 'I32', 'switch 1 case cond %s' % c)
        sw(['U8', c], ['I32'] * 3, 'I32', 'switch 2 cases cond1 %s' % c)
    for a, b in pairs:
        rt = promote(a, b) if is_num(a) else a
        sw(['U8'], [a, b], rt, 'switch arm %s default %s' % (a, b))
        sw(['U8', 'U8'], [a, b, a], rt, 'switch arms %s %s default %s' % (a, b, a))
        if ctx.thorough:
            sw(['U8', 'F64', 'I64'], [b, a, a, b], rt, 'switch arms %s %s %s default %s' % (b, a, a, b))
    for n in (3, 4, 6, 11, 24, 70):
        sw(['I32'] * n, ['I64'] * (n + 1), 'I64', 'switch %d cases' % n)
    # when block
    for has_else in (0, 1):
        for n in (1, 2, 3, 4, 5, 11, 24, 70):
            names, tys = [], []
            for i in range(n):
                names += ['c%d' % i, 'b%d' % i]
                tys += ['U8', 'Void']
            if has_else:
                names.append('e')
                tys.append('Void')
            for ct in (NUMS if n <= 2 else ['I32']):
                for pos in range(n) if n < 6 else (0, n - 1):
                    ct_l = ['U8'] * n
                    ct_l[pos] = ct
                    ty = list(tys)
                    for i in range(n):
                        ty[2 * i] = ct_l[i]
                    want = chain(['c%d' % i for i in range(n)], ct_l, ['b%d' % i for i in range(n)] + (['e'] if has_else else [None]),
                                 ['Void'] * (n + 1), None)
                    go('when', 'IfBlockNode', 'when %d branches else=%d cond%d %s' % (n, has_else, pos, ct), names, ty, 'Void', want)
    # blocks evaluate every statement once, in order
    for n in (1, 2, 3, 4, 11, 24, 70):
        for iso in (0, 1):
            names = ['a%d' % i for i in range(n)]
            w.compare('block', 'block of %d isolated=%d' % (n, iso), 'NoOPNode',
                      lambda: w.new('NoOPNode', w.vec([up(st(x, 'I32')) for x in names]), iso,
                                    pred=lambda d: d.p[0].ta and 'ExecNode' in d.p[0].s), 'Void', [case([], names, None)])
    # an operand whose generation fails fails the construct
    for cls, names in (('IfNode', ['c', 't', 'e']), ('SwitchNode', ['c0', 't0', 'c1', 't1', 'd']), ('IfBlockNode', ['c0', 'b0', 'c1', 'b1', 'e'])):
        for fc in names:
            tys = ['Void' if (cls == 'IfBlockNode' and x[0] in 'be') else 'I32' for x in names]
            outs, loc = w.gen(cls, lambda: w.new(cls, w.vec([up(st(n, t)) for n, t in zip(names, tys)])),
                              rt='Void' if cls == 'IfBlockNode' else 'I32', fail=fc)
            ctx.ob('child-error', '%s failing %s' % (cls, fc),
                   all(o['kind'] == 'ret' and o['ret'][0] not in ('OK', 'malformed') for o in outs), loc, 'succeeds although %s failed' % fc)
    ctx.stats.update(functions=len(w.it.visited_funcs), instructions=w.sim.count)
    ctx.need('if', 120)
    ctx.need('switch', 240)
    ctx.need('when', 50)
