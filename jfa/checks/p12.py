"""Variables: scoping, constness, type stability, and the value each path carries to the uses."""
import itertools

from ..cg import *

EXPLAIN = ('A family of program skeletons (assignments, let-constants, references, isolated groups, when blocks with and '
           'without else, nested) over opaque expressions is abstractly run through validation and then code generation. '
           'For each skeleton the accept/reject verdict is compared with the scoping rules and, if accepted, the value every '
           'variable holds on every control-flow path (read off the emitted SSA graph) and the order in which expressions '
           'are evaluated are compared with a direct reading of the program.')
ASSUME = ['skeletons are bounded (all shapes up to nesting 6, 6 branches, 12 statements; selected ones up to nesting 20, 70 branches, variables and statements); expressions are opaque', 'std containers modelled']


class Rej(Exception):
    pass


# ---- reference reading of a skeleton ------------------------------------------------------------
def check(prog):
    """Scoping rules. Returns types of the outermost variables; raises Rej."""
    env = [{}]

    def look(n):
        for e in reversed(env):
            if n in e:
                return e[n]
        return None

    def expr(e):
        if e[0] == 'leaf':
            return e[2]
        if e[0] == 'ref':
            v = look(e[1])
            if v is None:
                raise Rej('undefined')
            return v[0]

    def stmt(s):
        if s[0] == 'set':
            t = expr(s[3])
            if s[1]:
                v = look(s[1])
                if v is not None:
                    if v[1] or s[2] or v[0] != t:
                        raise Rej('reassign')
                env[-1][s[1]] = (t, s[2])
        elif s[0] == 'when':
            mods = {}
            for c, b in s[1]:
                expr(c)
                body(b, mods)
            if s[2] is not None:
                body(s[2], mods)
        elif s[0] == 'iso':
            for x in s[1]:
                env.append({})
                stmt(x)
                env.pop()
        elif s[0] == 'blk':
            for x in s[1]:
                stmt(x)

    def body(b, mods):
        env.append({})
        for x in b:
            stmt(x)
        env.pop()
    for s in prog:
        stmt(s)
    return dict(env[0])


def paths_of(prog):
    """[(conds, evaluated leaves, env)] by direct reading."""
    def ev(e, env):
        if e[0] == 'leaf':
            return (None if e[2] == 'Void' else child(e[1], e[2])), [e[1]]
        for sc in reversed(env):
            if e[1] in sc:
                return sc[e[1]], []

    def run(stmts, states):
        for s in stmts:
            nxt = []
            for conds, tr, env in states:
                if s[0] == 'set':
                    v, t = ev(s[3], env)
                    e2 = env
                    if s[1]:
                        e2 = env[:-1] + [dict(env[-1])]
                        e2[-1][s[1]] = v
                    nxt.append((conds, tr + t, e2))
                elif s[0] == 'blk':
                    nxt += run(s[1], [(conds, tr, env)])
                elif s[0] == 'iso':
                    cur = [(conds, tr, env)]
                    for x in s[1]:
                        cur = [(c, t, e[:-1]) for c, t, e in run([x], [(c, t, e + [{}]) for c, t, e in cur])]
                    nxt += cur
                elif s[0] == 'when':
                    cur = [(conds, tr, env)]
                    for cnd, b in s[1]:
                        keep = []
                        for c, t, e in cur:
                            cv, ct = ev(cnd, e)
                            tv = truth(cv, cnd[2])
                            known = dict(c).get(tv)
                            if known is not False:
                                nxt += leave(run(b, [(c if known else c + [(tv, True)], t + ct, e + [{}])]), e)
                            if known is not True:
                                keep.append((c if known is False else c + [(tv, False)], t + ct, e))
                        cur = keep
                    if s[2] is not None:
                        for c, t, e in cur:
                            nxt += leave(run(s[2], [(c, t, e + [{}])]), e)
                    else:
                        nxt += cur
            states = nxt
        return states

    def leave(sts, outer):
        out = []
        for c, t, e in sts:
            top = e[-1]
            base = [dict(x) for x in e[:-1]]
            for n, v in top.items():
                if any(n in x for x in base):
                    base[-1][n] = v      # assignment to a variable visible outside the branch
            out.append((c, t, base))
        return out
    return run(prog, [([], [], [{}])])


# ---- skeletons -----------------------------------------------------------------------------------
class Names:
    def __init__(self):
        self.n = 0

    def leaf(self, ty):
        self.n += 1
        return ('leaf', 'e%d' % self.n, ty)


def inst(s, N):
    """Instantiate a statement pattern with fresh leaves."""
    k = s[0]
    if k in ('x', 'y'):
        return ('set', k, False, N.leaf(s[1]))
    if k == 'let':
        return ('set', s[1], True, N.leaf(s[2]))
    if k == 'e':
        return ('set', '', False, N.leaf('I32'))
    if k == 'r':
        return ('set', '', False, ('ref', s[1]))
    if k == 'cp':
        return ('set', s[1], False, ('ref', s[2]))
    if k == 'letcp':
        return ('set', s[1], True, ('ref', s[2]))
    if k == 'when':
        cs = []
        for b in s[1]:
            c = N.leaf('U8')
            cs.append((c, [inst(x, N) for x in b]))
        return ('when', cs, None if s[2] is None else [inst(x, N) for x in s[2]])
    if k in ('iso', 'blk'):
        return (k, [inst(x, N) for x in s[1]])
    raise Broken(k)


X, XF, Y, LX, LY, E, RX, RY, YX, XY, LYX = (('x', 'I32'), ('x', 'F64'), ('y', 'I32'), ('let', 'x', 'I32'), ('let', 'y', 'I32'),
                                           ('e',), ('r', 'x'), ('r', 'y'), ('cp', 'y', 'x'), ('cp', 'x', 'y'), ('letcp', 'y', 'x'))
SIMPLE = [X, XF, Y, LX, E, RX, YX, LYX]


def skeletons(thorough):
    S = SIMPLE + [LY, RY, XY]
    for n in (1, 2, 3):
        for c in itertools.product(S if n < 3 else [X, LX, XF, YX, XY, RX], repeat=n):
            yield list(c)
    bodies = [[], [X], [XF], [LX], [Y], [E], [RX], [YX], [X, X], [Y, XY], [LY, XY], [X, YX], [LX, RX], [E, X]]
    pre = [[], [X], [LX], [X, Y], [XF]]
    post = [[], [X], [LX], [YX], [RX], [LY]]
    whens = []
    for b in bodies:
        whens.append(('when', [b], None))
    for b in bodies[:9]:
        for e in bodies[:9]:
            whens.append(('when', [b], e))
    for a, b in (([X], []), ([], [X]), ([X], [X]), ([X], [Y]), ([LX], [X]), ([X], [XF]), ([Y], [YX])):
        whens.append(('when', [a, b], None))
        for e in ([], [X], [Y]):
            whens.append(('when', [a, b], e))
    for w_ in whens:
        for p in pre:
            for q in post if (thorough or len(w_[1]) == 2 or w_[2] is None) else [[], [YX]]:
                yield p + [w_] + q
    # nesting
    inner = [('when', [[X]], None), ('when', [[Y]], None), ('when', [[X]], [Y]), ('when', [[YX]], [X]), ('iso', [X, Y]), ('blk', [X, Y]), ('iso', [LX])]
    for i in inner:
        for p in ([], [X], [X, Y], [LX], [Y]):
            for shape in (lambda i: ('when', [[i]], None), lambda i: ('when', [[i]], [X]), lambda i: ('when', [[X, i]], None),
                          lambda i: ('when', [[i, X]], [Y]), lambda i: ('when', [[X], [i]], None), lambda i: ('iso', [i, X]),
                          lambda i: ('iso', [X, i]), lambda i: ('blk', [i, YX]), lambda i: ('when', [[LX, i]], None),
                          lambda i: ('when', [[Y, i, YX]], [i])):
                for q in ([], [X], [YX], [RX]):
                    yield p + [shape(i)] + q
    for p in ([], [X], [LX], [X, Y]):
        for c in itertools.product([X, LX, Y, YX, E, XF], repeat=2):
            for q in ([], [X], [RX], [LX]):
                yield p + [('iso', list(c))] + q
    for a in inner[:4]:
        for b in inner[:4]:
            yield [X, Y, a, b, YX]
            yield [X, Y, ('when', [[a]], [b]), YX]
            yield [X, ('when', [[X, a], [b]], [a]), ('when', [[b]], [X])]
            if thorough:
                for c in inner[:4]:
                    yield [X, Y, ('when', [[a, c]], [b, c]), ('when', [[c]], None), XY]
                    yield [X, Y, ('when', [[('when', [[a]], [b])], [c]], [b]), c, XY]


def wide(thorough):
    """Long chains, deep nesting, long blocks and every value type."""
    for n in (3, 4, 5, 6) + ((9, 17) if thorough else ()):
        for e in (None, [], [X], [Y]):
            for i in [None] + sorted({0, 1, n // 2, n - 1}):
                bs = [[X] if i is None or i == k else [Y] for k in range(n)]
                for p in ([X], [X, Y], []):
                    for q in ([X], [YX], [LX], [RX, X, RX]):
                        if thorough or len(p) == 1 or q in ([X], [YX]):
                            yield p + [('when', bs, e)] + q
    for d in (3, 4, 5, 6):
        for leafs in ([X], [Y, YX], [LX], [X, RX, X]):
            for wrap in (lambda b: ('when', [b], None), lambda b: ('when', [[E], b], [X]), lambda b: ('blk', b), lambda b: ('when', [[X]], b),
                         lambda b: ('iso', b)):
                b = leafs
                for _ in range(d):
                    b = [wrap(b)]
                for p in ([], [X], [LX], [X, Y]):
                    for q in ([X], [RX], [YX]):
                        yield p + b + q
    for t in ALLT:
        x = ('x', t)
        for u in ALLT:
            yield [x, ('x', u), RX]
            yield [('when', [[x]], [('x', u)])]
            yield [x, ('when', [[('x', u)]], None), RX]
        yield [('let', 'x', t), RX, YX, ('cp', 'y', 'x')]
        yield [x, ('when', [[x], [YX]], [E]), RX]
        yield [('let', 'x', t), ('when', [[('letcp', 'y', 'x')]], None), RX]
    yield [X, RX] * 6
    # sizes far beyond anything usual: statements, branches, variables, nesting
    for n in (20, 70) + ((300,) if thorough else ()):
        yield [E] * n + [X, YX]
        yield [X] + [E] * n + [YX]
        yield [X, YX] * (n // 2) + [LX]
        yield [('iso', [X] * n)]
        many = [('let', 'v%d' % i, 'I32') for i in range(n)]
        for i in (0, 1, n // 2, n - 1):
            yield many + [('cp', 'y', 'v%d' % i), ('cp', 'x', 'v%d' % (n - 1 - i))]
            yield many + [X, ('when', [[('cp', 'x', 'v%d' % i)]], [Y]), YX]
            yield many + [('let', 'v%d' % i, 'I32')]
        for e in (None, [], [X], [Y]):
            for i in (0, 1, n - 2, n - 1):
                yield [X, Y, ('when', [[X] if k == i else [Y] for k in range(n)], e), YX]
                yield [X, ('when', [[E]] * n, e), YX]
    for d in (12, 20) + ((40,) if thorough else ()):
        for wrap in (lambda b: ('when', [b], None), lambda b: ('when', [[E], b], [X]), lambda b: ('blk', b), lambda b: ('when', [[X]], b), lambda b: ('iso', b)):
            for leafs in ([X], [Y, YX], [LX]):
                b = leafs
                for _ in range(d):
                    b = [wrap(b)]
                yield [X] + b + [YX]
                yield b + [X]
    yield [X, Y, YX, XY, X, YX, ('when', [[X, YX, XY, X, RX, Y]], [Y, XY, YX, X, X]), YX, XY, X, Y]
    yield [('iso', [X, LX, Y, LY, XF, X])]
    yield [X, ('iso', [X, YX, X, YX, ('when', [[X]], [X]), X]), X]


def show_sk(s):
    if isinstance(s, list):
        if len(s) > 12:
            return '{%s; ... %d more; %s}' % (show_sk(s[0]), len(s) - 4, '; '.join(show_sk(x) for x in s[-3:]))
        return '{' + '; '.join(show_sk(x) for x in s) + '}'
    if s[0] == 'when' and len(s[1]) > 8:
        k = [show_sk(b) for b in s[1]]
        return 'when %s elif ... %d %s ... elif %s' % (k[0], len(k), [i for i in range(len(k)) if k[i] == k[0]], k[-1]) + ('' if s[2] is None else ' else ' + show_sk(s[2]))
    if s[0] == 'when':
        return 'when ' + ' elif '.join(show_sk(b) for b in s[1]) + ('' if s[2] is None else ' else ' + show_sk(s[2]))
    if s[0] in ('iso', 'blk'):
        return s[0] + show_sk(s[1])
    return '.'.join(str(x) for x in s)


class W(CGCheck):
    def node(self, s):
        if s[0] == 'when':
            a = []
            for c, b in s[1]:
                a.append(self.up(self.expr(c)))
                a.append(self.up(self.block(b)))
            if s[2] is not None:
                a.append(self.up(self.block(s[2])))
            return self.new('IfBlockNode', self.vec(a))
        if s[0] == 'iso':
            return self.block(s[1], 1)
        if s[0] == 'blk':
            return self.block(s[1])

    def expr(self, e):
        if e[0] == 'ref':
            return self.new('RefNode', e[1])
        return self.stub(e[1], e[2])

    def var_info(self, name, const):
        t = self.p.types[NS + 'VarInfo']
        o = Obj(t)
        for f in self.p.rec(t).fields:
            o.f[f.name] = Cell(const if f.type.k != 'rec' else name)
        return o

    def block(self, stmts, iso=0):
        infos, args = [], []
        for s in stmts:
            if s[0] == 'set':
                infos.append(self.var_info(s[1], int(s[2])))
                args.append(self.up(self.expr(s[3])))
            else:
                infos.append(self.var_info('', 0))
                args.append(self.up(self.node(s)))
        return self.new('NoOPNode', self.vec(infos), self.vec(args), iso, pred=lambda d: 'VarInfo' in d.p[0].s)

    def mem(self, o):
        return Cell(o)

    def run_program(self, prog):
        """(validator status, per-path results) of the real visitors."""
        def thunk():
            root = self.block(prog)
            val = Cell(self.new('Validator', Cell(UPtr(None))))
            saved = self.on_accept
            self.on_accept = lambda it, s, this, a: self.ok()
            st, _ = self.visit('Validator', val, 'NoOPNode', root)
            s = self.status(st)
            if s != 'OK':
                return s, None, None
            self.context('Void')
            st, _ = self.visit('CodeGen', self.cgc, 'NoOPNode', root)
            s = self.status(st)
            if s != 'OK':
                return 'OK', 'codegen failed: ' + s, None
            vals = {}
            for n in ('x', 'y'):
                st, _ = self.visit('CodeGen', self.cgc, 'RefNode', self.new('RefNode', n))
                vals[n] = self.value if self.status(st) == 'OK' else None
            try:
                pr = check_cfg(self.entry)
                if pr:
                    return 'OK', 'malformed: ' + pr[0], None
                res = []
                for p in paths(self.entry_bb, self.builder.bb):
                    res.append((p.conds, split_trace(p.trace)[0], {n: (term_of(v, p.env) if isinstance(v, LV) else None) for n, v in vals.items()}))
            except Malformed as m:
                return 'OK', 'malformed: %s' % m, None
            return 'OK', None, res
        return self.it.explore(thunk)


def run(ctx):
    w = W(ctx)
    w.it.max_depth = 500
    seen = set()
    loc = w.p.fn(NS + 'Validator::Visit', pred=lambda f: f.decl.p[0].strip().q == NS + 'NoOPNode')
    loc = (loc.file, loc.line)
    cgl = w.p.fn(NS + 'CodeGen::Visit', pred=lambda f: f.decl.p[0].strip().q == NS + 'IfBlockNode')
    cgl = (cgl.file, cgl.line)
    acc = 0
    for sk in itertools.chain(skeletons(ctx.thorough), wide(ctx.thorough)):
        key = show_sk(sk)
        if repr(sk) in seen:
            continue
        seen.add(repr(sk))
        N = Names()
        prog = [inst(s, N) for s in sk]
        try:
            env = check(prog)
            want = True
        except Rej as r:
            want = False
        outs = w.run_program(prog)
        o = outs[0]
        if len(outs) != 1 or o['kind'] != 'ret':
            ctx.ob('verdict', key, False, loc, 'evaluation gave %d outcomes, %s %s' % (len(outs), o['kind'], o.get('why') or o.get('exc')))
            continue
        st, err, res = o['ret']
        mal = [e for e in o['events'] if e['kind'] in ('malformed', 'nullderef', 'oob')]
        if not ctx.ob('verdict', key, (st == 'OK') == want, loc, 'accepted' if st == 'OK' else 'rejected'):
            continue
        if not want:
            continue
        acc += 1
        if err or mal:
            ctx.ob('values', key, False, cgl, err or mal[0].get('what') or mal[0]['kind'])
            continue
        exp = {}
        for conds, tr, e in paths_of(prog):
            k, ch, _ = case(conds, tr, None)
            exp[k] = (ch, {n: e[0].get(n) for n in ('x', 'y')})
        got = {frozenset(c): (ch, v) for c, ch, v in res}
        if set(exp) != set(got):
            ctx.ob('values', key, False, cgl, 'paths differ: %s' % sorted(showc(k) for k in set(exp) ^ set(got)))
            continue
        bad = None
        for k in exp:
            if exp[k][0] != got[k][0]:
                bad = 'on %s evaluates %s, expected %s' % (showc(k), list(got[k][0]), list(exp[k][0]))
            elif exp[k][1] != got[k][1]:
                bad = 'on %s variables are %s, expected %s' % (showc(k), {n: show(v) for n, v in got[k][1].items()}, {n: show(v) for n, v in exp[k][1].items()})
        ctx.ob('values', key, bad is None, cgl, bad)
    # every entry of a batch starts without variables
    ctx.stats.update(skeletons=len(seen), accepted=acc, functions=len(w.it.visited_funcs))
    ctx.need('verdict', 1000)
    ctx.need('values', 300)
