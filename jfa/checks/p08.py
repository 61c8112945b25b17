"""Static typing of every expression form: the validator's type rules, over all operand types."""
from ..world import *

EXPLAIN = ('Abstract evaluation of every Validator visitor over the finite domain of operand value types (all types, '
           'all operators, all constant alternatives, argument counts): each row (node kind, operator, operand types) '
           'must be accepted/rejected and typed exactly as the language rules say; children are opaque typed stubs.')
ASSUME = ['the std containers/variant behave as documented (modelled)', 'string contents of diagnostics are not checked']

ARITH = ['Sub', 'Mul', 'Div', 'Mod']
REL = ['Large', 'LargeEqual', 'Equal', 'Less', 'LessEqual', 'NotEqual']
LOG = ['And', 'Or']
BITS_ = ['BitwiseAnd', 'BitwiseOr', 'BitwiseXor']
SH = ['BitwiseShiftLeft', 'BitwiseShiftRight']
BIN = ['Add'] + ARITH + REL + LOG + BITS_ + SH


def promote(a, b):
    return PROMO[max(PROMO.index(a), PROMO.index(b))]


def bin_rule(op, l, r):
    if l == 'Void' or r == 'Void':
        return None
    nn = is_num(l) and is_num(r)
    ii = is_int(l) and is_int(r)
    if op in LOG:
        return 'U8' if nn else None
    if op in REL:
        return 'U8' if nn or (l == r == 'String') else None
    if op in BITS_:
        return promote(l, r) if ii else None
    if op in SH:
        return l if ii else None
    if nn:
        return promote(l, r)
    if op == 'Add' and l == r and (l == 'String' or is_list(l)):
        return l
    return None


def un_rule(op, t):
    if not is_num(t):
        return None
    if op == 'Plus':
        return t
    if op == 'Minus':
        return 'I32' if t in ('I8', 'U8', 'I16', 'U16') else t
    if op == 'Not':
        return 'U8'
    return t if is_int(t) else None


class V(World):
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.reg = None

    def validator(self):
        v = self.new('Validator', Cell(UPtr(None)))
        return Cell(v)

    def one(self, cls, make, row, want, rule, order=None, fail_child=None):
        """Evaluate Validator::Visit(cls) on make(); compare verdict and type."""
        loc = [None]
        fails = {}

        def acc(it, s, this, a):
            it.event('accept', stub=s)
            if s.name == fail_child:
                return self.fail('RuntimeError')
            return self.ok()
        self.on_accept = acc

        def thunk():
            n = make()
            st, f = self.visit('Validator', self.validator(), cls, n)
            loc[0] = (f.file, f.line)
            return self.status(st), self.node_type(n)
        try:
            outs = self.it.explore(thunk)
        finally:
            self.on_accept = None
        good = True
        why = ''
        for o in outs:
            if o['kind'] != 'ret':
                good, why = False, '%s: %s' % (o['kind'], o.get('why') or o.get('exc'))
                break
            st, ty = o['ret']
            if any(e['kind'] == 'set_child_type' for e in o['events']):
                good, why = False, 'overwrites the type of a child'
            if fail_child is not None:
                if st == 'OK':
                    good, why = False, 'accepted although child %s failed to validate' % fail_child
                continue
            if want is None:
                if st == 'OK':
                    good, why = False, 'accepted (typed %s) but must be rejected' % ty
            elif st != 'OK':
                good, why = False, 'rejected (%s) but must be accepted as %s' % (st, want)
            elif ty != want:
                good, why = False, 'typed %s, expected %s' % (ty, want)
            elif order is not None:
                got = [e['stub'].name for e in o['events'] if e['kind'] == 'accept']
                if sorted(got) != sorted(order):
                    good, why = False, 'visited children %s, expected each of %s once' % (got, order)
        self.ctx.ob(rule, row, good, loc[0], why)

    def const(self, alt, val):
        """ConstantValueNode holding alternative alt with value val."""
        t = [x for k, x in self.p.types.items() if x.q == NS + 'ConstantValueNode']
        f = self.p.rec(self.p.types[NS + 'ConstantValueNode']).fields
        alts = self.alts('ConstantValueNode')
        i = [self.alt_name(x) for x in alts].index(alt)
        return self.new('ConstantValueNode', Variant(alts, i, Cell(val)))

    def alts(self, cls):
        ctor = [d for d in self.p.fdecls.values() if d.ctor and d.cls is not None and d.cls.q == NS + cls and
                not d.copyctor and not d.movector and d.p and not d.deleted]
        return self.m.alts(ctor[0].p[0])

    def alt_name(self, t):
        s = t.s.replace('const ', '')
        if s in LETTER:
            return LETTER[s]
        if 'vector' in s:
            inner = t.ta[0][1]
            return self.alt_name(inner) + 'List'
        if 'basic_string' in s or s == 'std::string':
            return 'String'
        raise Broken('constant alternative ' + s)


def run(ctx):
    w = V(ctx)
    one = w.one
    st = w.stub
    up = w.up
    U, B = w.uop['names'], w.bop['names']
    ops = {k[1:] for k in B}
    ctx.ob('operators-known', 'binary', ops == set(BIN), w.bop['loc'], 'operator set changed: %s' % (ops ^ set(BIN)))
    ctx.ob('operators-known', 'unary', {k[1:] for k in U} == {'Plus', 'Minus', 'Not', 'BitwiseNot'}, w.uop['loc'], 'set changed')
    # leaf nodes
    for cls, want in (('EntryArgumentNode', 'Ptr'), ('ExecContextNode', 'Ptr'), ('OutputNode', 'Ptr')):
        one(cls, lambda cls=cls: w.new(cls), cls, want, 'leaf')
    for i, a in enumerate(w.alts('ConstantValueNode')):
        nm = w.alt_name(a)
        val = 'x' if nm == 'String' else (1.0 if nm[0] == 'F' else 1)
        one('ConstantValueNode', lambda nm=nm, val=val: w.const(nm, val), 'constant ' + nm, nm, 'literal')
    la = w.alts('ConstantListValueNode')
    for i, a in enumerate(la):
        nm = w.alt_name(a)
        one('ConstantListValueNode', lambda i=i: w.new('ConstantListValueNode', Variant(la, i, Cell(Vec([])))), 'constant ' + nm, nm, 'literal')
    # unary
    for op in U:
        for t in ALLT:
            one('UnaryOPNode', lambda: w.new('UnaryOPNode', U[op], up(st('c', t))), '%s %s' % (op[1:], t), un_rule(op[1:], t), 'unary', ['c'])
        one('UnaryOPNode', lambda: w.new('UnaryOPNode', U[op], up(st('c', 'I32'))), '%s failing child' % op[1:], None, 'child-error', fail_child='c')
    # binary
    for op in B:
        for l in ALLT:
            for r in ALLT:
                one('BinaryOPNode', lambda: w.new('BinaryOPNode', B[op], up(st('l', l)), up(st('r', r))),
                    '%s %s %s' % (l, op[1:], r), bin_rule(op[1:], l, r), 'binary', ['l', 'r'])
        for fc in 'lr':
            one('BinaryOPNode', lambda: w.new('BinaryOPNode', B[op], up(st('l', 'I32')), up(st('r', 'I32'))),
                '%s failing %s' % (op[1:], fc), None, 'child-error', fail_child=fc)
    # constant zero divisor
    vals = {'String': ['']}
    for nm in [w.alt_name(a) for a in w.alts('ConstantValueNode')]:
        if nm == 'String':
            continue
        for val in ((0.0, 1.5, -0.0) if nm[0] == 'F' else (0, 1, (-1 if nm[0] == 'I' else 255))):
            for l in NUMS:
                for op in ('Div', 'Mod', 'Mul', 'Sub'):
                    def mk():
                        c = w.const(nm, val)
                        # give the literal its type the way validation does
                        return w.new('BinaryOPNode', B['k' + op], up(st('l', l)), up(c))
                    zero = is_int(nm) and val == 0 and op in ('Div', 'Mod')
                    one('BinaryOPNode', mk, '%s %s literal %s %r' % (l, op, nm, val), None if zero else promote(l, nm), 'constant-zero-divisor')
    # if expression
    for n in range(0, 6):
        if n != 3:
            one('IfNode', lambda: w.new('IfNode', w.vec([up(st('a%d' % i, 'I32')) for i in range(n)])), 'if with %d arguments' % n, None, 'arity')
    for c in ALLT:
        one('IfNode', lambda: w.new('IfNode', w.vec([up(st('c', c)), up(st('t', 'I32')), up(st('e', 'I32'))])), 'if cond %s' % c,
            'I32' if is_num(c) else None, 'if', ['c', 't', 'e'])
    for t in ALLT:
        for e in ALLT:
            want = None
            if t != 'Void' and e != 'Void':
                want = promote(t, e) if is_num(t) and is_num(e) else (t if t == e else None)
            one('IfNode', lambda: w.new('IfNode', w.vec([up(st('c', 'U8')), up(st('t', t)), up(st('e', e))])), 'if %s else %s' % (t, e), want, 'if', ['c', 't', 'e'])
    for fc in 'cte':
        one('IfNode', lambda: w.new('IfNode', w.vec([up(st(x, 'I32')) for x in 'cte'])), 'if failing ' + fc, None, 'child-error', fail_child=fc)
    # switch

    def sw(tys):
        names = ['a%d' % i for i in range(len(tys))]
        return (lambda: w.new('SwitchNode', w.vec([up(st(n, t)) for n, t in zip(names, tys)]))), names

    def sw_rule(tys):
        if len(tys) % 2 == 0 or 'Void' in tys:
            return None
        n = len(tys)
        if any(not is_num(tys[i]) for i in range(0, n - 1, 2)):
            return None
        br = [tys[i] for i in range(n) if i % 2 or i == n - 1]
        if all(is_num(b) for b in br):
            x = br[0]
            for b in br:
                x = promote(x, b)
            return x
        return br[0] if all(b == br[0] for b in br) else None
    rows = []
    for n in (0, 2, 4, 6):
        rows.append(['I32'] * n)
    for t in ALLT:
        rows.append([t])
        for pos in range(5):
            base = ['U8', 'I32', 'U8', 'I32', 'I32']
            base[pos] = t
            rows.append(base)
            base = ['U8', 'String', 'U8', 'String', 'String']
            base[pos] = t
            rows.append(base)
            rows.append([t if (i % 2 or i == 4) else 'U8' for i in range(5)])
        for e in ALLT:
            rows.append(['U8', t, e])
            rows.append(['U8', 'I8', 'U8', t, e])
            rows.append(['U8', e, 'U8', t, 'I8'])
            if ctx.thorough:
                for x in ALLT:
                    rows.append(['U8', x, 'U8', t, e])
                rows.append(['U8', 'I8', 'U8', 'U16', 'I64', t, e])
    for tys in rows:
        mk, names = sw(tys)
        one('SwitchNode', mk, 'switch(%s)' % ', '.join(tys), sw_rule(tys), 'switch', names)
    mk, names = sw(['I32'] * 5)
    for fc in names:
        one('SwitchNode', mk, 'switch failing ' + fc, None, 'child-error', fail_child=fc)
    # if block (when): conditions numeric, bodies void, result void
    def ib(tys):
        names = ['a%d' % i for i in range(len(tys))]
        return (lambda: w.new('IfBlockNode', w.vec([up(st(n, t)) for n, t in zip(names, tys)]))), names

    def ib_rule(tys):
        n = len(tys)
        if n < 2:
            return None
        for i, t in enumerate(tys):
            body = i % 2 == 1 or (n % 2 and i == n - 1)
            if body != (t == 'Void') or (not body and not is_num(t)):
                return None
        return 'Void'
    rows = [[], ['U8'], ['Void']]
    for n in (2, 3, 4, 5):
        base = ['Void' if (i % 2 == 1 or (n % 2 and i == n - 1)) else 'U8' for i in range(n)]
        rows.append(base)
        for pos in range(n):
            for t in ALLT:
                rows.append(base[:pos] + [t] + base[pos + 1:])
    for tys in rows:
        mk, names = ib(tys)
        one('IfBlockNode', mk, 'when(%s)' % ', '.join(tys), ib_rule(tys), 'if-block', names)
    mk, names = ib(['U8', 'Void', 'U8', 'Void', 'Void'])
    for fc in names:
        one('IfBlockNode', mk, 'when failing ' + fc, None, 'child-error', fail_child=fc)
    # blocks
    for n in (1, 2, 3):
        for iso in (0, 1):
            names = ['a%d' % i for i in range(n)]
            mk = lambda: w.new('NoOPNode', w.vec([up(st(x, 'I32')) for x in names]), iso,
                               pred=lambda d: d.p[0].ta and 'ExecNode' in d.p[0].s)
            one('NoOPNode', mk, 'block of %d isolated=%d' % (n, iso), 'Void', 'block', names)
            for fc in names:
                one('NoOPNode', mk, 'block failing %s isolated=%d' % (fc, iso), None, 'child-error', fail_child=fc)
    # function calls
    registry(ctx, w, one)
    ctx.stats['functions'] = len(w.it.visited_funcs)
    ctx.stats['partitions'] = w.it.paths_run
    ctx.need('binary', len(B) * len(ALLT) ** 2)
    ctx.need('literal', 22)


def registry(ctx, w, one):
    """Calls: void arguments rejected, unknown signatures rejected, result type is the registered one."""
    st, up = w.stub, w.up
    mode = {}

    def lookup(it, fd, this, a, e):
        it.event('lookup')
        if mode['known']:
            sign = a[0].v if isinstance(a[0], Cell) else a[0]
            setter = [f for f in w.p.funcs.values() if f.q == NS + 'FunctionSignature::SetRetType' or f.q == NS + 'FunctionSignature::SetReturnType']
            fs = [f for f in w.p.rec(sign.cls).fields if f.type.k == 'enum']
            if len(fs) != 1:
                raise Broken('function signature without a single return type field')
            sign.f[fs[0].name].v = w.T(mode['ret'])
            return w.ok()
        return w.fail('RuntimeError')
    w.it.override[NS + 'FunctionRegistry::GetFuncBySign'] = lookup

    w.validator = lambda: Cell(w.new('Validator', Cell(w.up(Obj(w.p.types[NS + 'FunctionRegistry'])))))
    for known in (True, False):
        for ret in ALLT:
            mode.update(known=known, ret=ret)
            one('FunctionNode', lambda: w.new('FunctionNode', 'f', w.vec([up(st('a', 'I32')), up(st('b', 'F64'))])),
                'call known=%s ret=%s' % (known, ret), ret if known else None, 'call', ['a', 'b'])
    mode.update(known=True, ret='I32')
    for pos in range(3):
        for t in ALLT:
            tys = ['I32'] * 3
            tys[pos] = t
            one('FunctionNode', lambda: w.new('FunctionNode', 'f', w.vec([up(st('a%d' % i, x)) for i, x in enumerate(tys)])),
                'call(%s)' % ', '.join(tys), None if t == 'Void' else 'I32', 'call', ['a0', 'a1', 'a2'])
    for fc in ('a0', 'a1'):
        one('FunctionNode', lambda: w.new('FunctionNode', 'f', w.vec([up(st('a0', 'I32')), up(st('a1', 'I32'))])),
            'call failing ' + fc, None, 'child-error', fail_child=fc)
