"""Operators compute what they denote, for every operand type."""
from ..cg import *
from .p08 import bin_rule, un_rule, promote, BIN, REL

EXPLAIN = ('Abstract evaluation of the code generator\'s operator visitors on opaque typed operands, for every operator '
           'and every well-typed operand type combination; the instructions requested from the IR builder (with type '
           'checking of every instruction) must form exactly the term that denotes the operator on the promoted type '
           '(signedness-correct), and both operands are evaluated once, left first.')
ASSUME = ['LLVM instruction semantics', 'operator on string/list operands is delegated to runtime functions (see P03, P16)']

AR = {'Add': ('add', 'add', 'fadd'), 'Sub': ('sub', 'sub', 'fsub'), 'Mul': ('mul', 'mul', 'fmul'),
      'Div': ('sdiv', 'udiv', 'fdiv'), 'Mod': ('srem', 'urem', 'frem'),
      'BitwiseAnd': ('and', 'and', None), 'BitwiseOr': ('or', 'or', None), 'BitwiseXor': ('xor', 'xor', None),
      'BitwiseShiftLeft': ('shl', 'shl', None), 'BitwiseShiftRight': ('ashr', 'lshr', None)}
CM = {'Large': ('sgt', 'ugt', 'ogt'), 'LargeEqual': ('sge', 'uge', 'oge'), 'Less': ('slt', 'ult', 'olt'),
      'LessEqual': ('sle', 'ule', 'ole'), 'Equal': ('eq', 'eq', 'oeq'), 'NotEqual': ('ne', 'ne', 'une')}


def kind(t):
    return 2 if not is_int(t) else (0 if t[0] == 'I' else 1)


def expected(op, l, r):
    L, R = child('l', l), child('r', r)
    if op in ('And', 'Or'):
        tl, tr = truth(L, l), truth(R, r)
        short = op == 'Or'
        return [case([(tl, not short)], ['l', 'r'], T('zext', 'i8', tr)),
                case([(tl, short)], ['l'], T_const('i8', int(short)))]
    if op in CM:
        p = promote(l, r)
        k = 'fcmp ' if kind(p) == 2 else 'icmp '
        c = T(k + CM[op][kind(p)], 'i1', conv(L, l, p), conv(R, r, p))
        return [case([], ['l', 'r'], T('zext', 'i8', c))]
    p = bin_rule(op, l, r)
    t = T(AR[op][kind(p)], LTY[p], conv(L, l, p), conv(R, r, p))
    return [case([], ['l', 'r'], t)]


def run(ctx):
    w = CGCheck(ctx)
    B, U = w.bop['names'], w.uop['names']
    up, st = w.up, w.stub
    for op in BIN:
        if 'k' + op not in B:
            raise Broken('operator %s vanished' % op)
        for l in NUMS:
            for r in NUMS:
                rt = bin_rule(op, l, r)
                if rt is None:
                    continue
                w.compare('binary', '%s %s %s' % (l, op, r), 'BinaryOPNode',
                          lambda: w.new('BinaryOPNode', B['k' + op], up(st('l', l)), up(st('r', r))), rt, expected(op, l, r))
    for op in ('Plus', 'Minus', 'Not', 'BitwiseNot'):
        for t in NUMS:
            rt = un_rule(op, t)
            if rt is None:
                continue
            x = child('c', t)
            c = conv(x, t, rt) if op != 'Not' else x
            if op == 'Plus':
                e = c
            elif op == 'Minus':
                e = T('sub', LTY[rt], T_const(LTY[rt], 0), c) if is_int(rt) else T('fneg', LTY[rt], c)
            elif op == 'BitwiseNot':
                e = T('xor', LTY[rt], c, T_const(LTY[rt], (1 << width(rt)) - 1))
            elif is_int(t):
                e = T('zext', 'i8', T('icmp eq', 'i1', x, T_const(LTY[t], 0)))
            else:
                e = T('zext', 'i8', T('fcmp oeq', 'i1', x, T_const(LTY[t], 0.0)))
            w.compare('unary', '%s %s' % (op, t), 'UnaryOPNode', lambda: w.new('UnaryOPNode', U['k' + op], up(st('c', t))), rt, [case([], ['c'], e)])
    # a child that cannot be generated makes the whole node fail
    for cls, mk, names in (('BinaryOPNode', lambda: w.new('BinaryOPNode', B['kAdd'], up(st('l', 'I32')), up(st('r', 'I32'))), 'lr'),
                           ('BinaryOPNode', lambda: w.new('BinaryOPNode', B['kAnd'], up(st('l', 'I32')), up(st('r', 'I32'))), 'lr'),
                           ('UnaryOPNode', lambda: w.new('UnaryOPNode', U['kMinus'], up(st('c', 'I32'))), 'c')):
        for n in names:
            outs, loc = w.gen(cls, mk, rt='I32', fail=n)
            ctx.ob('child-error', '%s failing %s' % (cls, n), all(o['kind'] == 'ret' and o['ret'][0] not in ('OK', 'malformed') for o in outs), loc,
                   'succeeds although operand %s failed' % n)
    ctx.stats.update(functions=len(w.it.visited_funcs), instructions=w.sim.count)
    ctx.need('binary', 1500)
    ctx.need('unary', 36)
