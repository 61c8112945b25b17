"""Every call in generated code reaches the registered native function of exactly that overload, with the written arguments."""
from ..cg import *
from ..orcsim import Orc, LJit
from ..reg import *

EXPLAIN = ('The function registry is built by evaluating its factory on the typed AST and the code generator is evaluated on a call '
           'node of every native overload (opaque operands), on the operators that lower to native calls and on the expanded builtins; '
           'every emitted symbol is resolved through the evaluated symbol mapping to the native function it is bound to and '
           'compared with the overload that was written. Registration, overriding, lookup and attribute rules are evaluated on '
           'small registries.')
ASSUME = ['symbols defined in the main dylib take precedence over process symbols (LLVM ORC)']


def fkey(f):
    return '%s(%s)' % (f.q, ', '.join(t.s for t in f.p or []))


def resolve(t, pub):
    """Term with call symbols replaced by the native function they are mapped to."""
    if isinstance(t, tuple):
        if t and t[0] == 'call' and len(t) > 2 and isinstance(t[2], str):
            return ('call', t[1], pub.get(t[2], '?unmapped ' + t[2])) + tuple(resolve(x, pub) for x in t[3:])
        return tuple(resolve(x, pub) for x in t)
    return t


def published(w, reg_cell, orc, declare=()):
    orc.faults = set()

    def thunk():
        j = LJit(None)
        st = w.status(w.call(NS + 'FunctionRegistry::MappingToJIT', reg_cell, j))
        return st, j
    outs = w.it.explore(thunk)
    if len(outs) != 1 or outs[0]['kind'] != 'ret' or outs[0]['ret'][0] != 'OK':
        return None
    d = {}
    for name, s in outs[0]['ret'][1].symbols.items():
        p = s.addr.ptr if s is not None and hasattr(s.addr, 'ptr') else None
        if isinstance(p, Cell):
            p = p.v
        d[name] = p
    return d


def run(ctx):
    w = CGCheck(ctx)
    w.real_text = True
    orc = Orc()
    w.m.extra.insert(0, orc)
    w.m.orc = orc
    es = extract(w)
    by = {(e.name, tuple(e.params)): e for e in es}
    w.registry = real_registry(w)
    loc0 = w.p.fn(NS + 'FunctionRegistry::MappingToJIT')
    loc0 = (loc0.file, loc0.line)
    pub = published(w, Cell(w.registry), orc)
    if pub is None:
        ctx.ob('symbol-mapping', 'builtin registry', False, loc0, 'symbol mapping of the builtin registry fails')
        pub = {}
    pubk = {s: fkey(f.f) if isinstance(f, FnRef) else repr(f) for s, f in pub.items()}

    def nat(name, *ps):
        e = by.get((name, ps))
        return e if e is not None and e.cfunc is not None else None

    def callt(e, *a):
        return ('call', str(LTY[e.ret]), fkey(e.cfunc)) + tuple(a)

    CTXARG = ('arg', 'ptr', 1)

    def check(rule, row, cls, make, rt, want, ncalls, names, loc=None, ret_ty=None):
        """want: list of acceptable resolved terms; ncalls: native calls executed, in evaluation order."""
        outs, l2 = w.gen(cls, make, rt=rt)
        ok, why = True, ''
        for o in outs:
            mal = [x for x in o['events'] if x['kind'] in ('malformed', 'nullderef', 'oob')]
            if mal:
                ok, why = False, mal[0].get('what') or mal[0]['kind']
                break
            if o['kind'] != 'ret' or o['ret'][0] != 'OK':
                ok, why = False, str(o.get('why') or o.get('ret', ('?',))[:2])
                break
            st, v, ps, mod = o['ret']
            for conds, tr, t, p in ps:
                ch, calls = split_trace(tr)
                rt_ = resolve(t, pubk) if t is not None else None
                rc = [resolve(('call', None, c[1]) + tuple(c[2]), pubk) for c in calls]
                if conds:
                    ok, why = False, 'the call depends on a branch: %s' % showc(frozenset(conds))
                elif ch != tuple(names):
                    ok, why = False, 'evaluates operands %s, expected %s' % (list(ch), list(names))
                elif [('call', None) + x[2:] for x in rc] != [('call', None) + x[2:] for x in ncalls]:
                    ok, why = False, 'calls %s, expected %s' % ('; '.join(show(x) for x in rc) or 'nothing', '; '.join(show(x) for x in ncalls))
                elif want is not None and rt_ not in want:
                    ok, why = False, 'yields %s, expected %s' % (show(rt_), show(want[0]))
                elif want is None and v is not None:
                    ok, why = False, 'a call without result yields a value'
                if not ok:
                    break
            # declared function types
            for s, f in mod.fns.items():
                g = pub.get(s)
                if ok and isinstance(g, FnRef):
                    from .p01 import layout
                    want_a = [str(LTY.get(layout(w.p, x), '?')) for x in g.f.p]
                    got_a = [str(x) for x in f.fty.elts]
                    wr = layout(w.p, g.f.r)
                    wr = str(LTY['U8' if wr == 'bool' else wr])
                    if want_a != got_a or str(f.fty.ret) != wr:
                        ok, why = False, 'symbol %s declared as %s (%s), the native function is %s (%s)' % (
                            s, f.fty.ret, ', '.join(got_a), wr, ', '.join(want_a))
        ctx.ob(rule, row, ok, loc or l2, why)

    # every native overload, both calling forms
    for e in es:
        if e.kind != 'C' or e.cfunc is None:
            continue
        names = ['a%d' % i for i in range(len(e.params))]
        args = [child(n, t) for n, t in zip(names, e.params)] + ([CTXARG] if e.inject else [])
        t = callt(e, *args)
        check('call-linkage', e.sig(), 'FunctionNode',
              lambda e=e: w.new('FunctionNode', e.name, w.vec([w.up(w.stub('a%d' % i, x)) for i, x in enumerate(e.params)])),
              e.ret, None if e.ret == 'Void' else [t], [t], names, e.loc)
    # expanded builtins
    n = 0
    for e in es:
        if e.kind != 'I':
            continue
        a = [child('a%d' % i, t) for i, t in enumerate(e.params)]
        seq = None
        P = e.params
        if e.name == 'FilterByBitmap' and len(P) == 2:
            c, f = nat('CountBits', 'U8List'), nat('FilterByBitmap', P[0], 'U8List', 'U32')
            if c and f:
                c1 = callt(c, a[1], *([CTXARG] if c.inject else []))
                seq = [c1, callt(f, a[0], a[1], c1, CTXARG)]
        elif e.name in ('GroupKeys', 'GroupSum', 'GroupMax', 'GroupMin', 'GroupAvg') and len(P) == 2:
            c, f = nat('GroupCount', 'U32List'), nat(e.name, P[0], 'U32List', 'U32')
            if c and f:
                c1 = callt(c, a[1], *([CTXARG] if c.inject else []))
                seq = [c1, callt(f, a[0], a[1], c1, CTXARG)]
        elif e.name == 'ListLookupIndex':
            k = 'String' if P[0] == 'StringList' else 'Int'
            c, f = nat('__BuildLookupTable' + k, P[0]), nat('__LookupTable' + k, P[0], 'Ptr')
            if c and f:
                c1 = callt(c, a[1], CTXARG)
                seq = [c1, callt(f, a[0], c1, CTXARG)]
        else:
            continue
        n += 1
        if seq is None or seq[-1][1] != str(LTY[e.ret]):
            ctx.ob('expanded-builtin', e.sig(), False, e.loc, 'the native functions it expands to are not registered')
            continue
        check('expanded-builtin', e.sig(), 'FunctionNode',
              lambda e=e: w.new('FunctionNode', e.name, w.vec([w.up(w.stub('a%d' % i, x)) for i, x in enumerate(e.params)])),
              e.ret, [seq[-1]], seq, ['a%d' % i for i in range(len(P))], e.loc)
    # operators on strings and lists
    l_, r_ = child('l', 'String'), child('r', 'String')
    bop = w.bop['names']
    cmp = nat('StringCmp', 'String', 'String')
    for op in ('Equal', 'NotEqual', 'Less', 'LessEqual', 'Large', 'LargeEqual'):
        c = callt(cmp, l_, r_)
        z = T_const('i32', 0)
        pr = {'Equal': ('eq',), 'NotEqual': ('ne',), 'Less': ('slt',), 'LessEqual': ('sle',), 'Large': ('slt',), 'LargeEqual': ('sle',)}[op][0]
        if op in ('Equal', 'NotEqual'):
            ts = [T('icmp ' + pr, 'i1', z, c), T('icmp ' + pr, 'i1', c, z)]
        else:
            ts = [T('icmp ' + pr, 'i1', *((c, z) if op in ('Less', 'LessEqual') else (z, c)))]
        want = [T('zext', 'i8', t) for t in ts]
        check('operator-call', '%s on strings' % op, 'BinaryOPNode',
              lambda op=op: w.new('BinaryOPNode', bop['k' + op], w.up(w.stub('l', 'String')), w.up(w.stub('r', 'String'))),
              'U8', want, [c], ['l', 'r'])
    for t in ['String'] + LISTS:
        f = nat('StringConcat', t, t) if t == 'String' else nat('ListConcat', t, t)
        if f is None:
            ctx.ob('operator-call', 'Add on %s' % t, False, loc0, 'no concatenation registered')
            continue
        c = callt(f, child('l', t), child('r', t), CTXARG)
        check('operator-call', 'Add on %s' % t, 'BinaryOPNode',
              lambda t=t: w.new('BinaryOPNode', bop['kAdd'], w.up(w.stub('l', t)), w.up(w.stub('r', t))), t, [c], [c], ['l', 'r'])
    # symbol mapping covers exactly the native functions
    for e in es:
        if e.kind == 'C' and not e.inject:
            hits = [s for s, k in pubk.items() if k == fkey(e.cfunc)]
            ctx.ob('symbol-mapping', e.sig(), bool(hits), e.loc, 'no symbol is mapped to %s' % e.cfunc.q)
    small(ctx, w, orc)
    ctx.stats.update(symbols=len(pub), functions=len(w.it.visited_funcs))
    ctx.need('call-linkage', 1000)
    ctx.need('expanded-builtin', 50)
    ctx.need('registration', 40)


def small(ctx, w, orc):
    """Registration, override, lookup, attributes and mapping on small registries."""
    p = w.p
    SB = NS + 'FunctionRegistry::'
    where = p.fn(SB + 'RegisterFunc')
    loc = (where.file, where.line)
    sf = sign_fields(w)

    def sig(name, ps, ret='Unknown'):
        return w.new('FunctionSignature', name, w.vec([w.T(x) for x in ps]), w.T(ret))

    def reg(r, kind, name, ps, ret, f, override=0, idx=1):
        args = [Cell(sig(name, ps, ret)), f]
        if kind == 'StoreCFunc':
            args.append(idx)
        args.append(override)
        return w.status(w.call(SB + 'Register' + kind, r, *args))

    def lookup(r, name, ps):
        s = Cell(sig(name, ps))
        t = Obj(p.types[NS + 'FunctionStructure'])
        w.it.default_fields(p.rec(t.cls), t, set())
        st = w.status(w.call(SB + 'GetFuncBySign', r, s, Ptr(Cell(t))))
        if st != 'OK':
            return None
        tf = struct_fields(w)
        g = t.f[tf['cptr']].v
        return w.tname(s.v.f[sf['ret']]), g if isinstance(g, PyFn) else t.f[tf['cg']].v

    KINDS = ['ReadOnlyCFunc', 'CommutativeCFunc', 'StoreCFunc', 'ReadOnlyCFuncWithExecCtx', 'CommutativeCFuncWithExecCtx', 'LLVMIntrinicFunc']
    F1, F2, F3 = PyFn(None, 'f1'), PyFn(None, 'f2'), PyFn(None, 'f3')

    def one(name, body):
        """body yields (what, ok) pairs; evaluated on every path."""
        def thunk():
            return list(body(empty_registry(w)))
        outs = w.it.explore(thunk)
        res = {}
        for o in outs:
            if o['kind'] != 'ret':
                res['evaluates'] = (False, '%s %s' % (o['kind'], o.get('why')))
                continue
            for what, ok, why in o['ret']:
                if not ok or what not in res:
                    res[what] = (ok, why)
        for what, (ok, why) in res.items():
            ctx.ob('registration', '%s: %s' % (name, what), ok, loc, why)
    orc.faults = set()
    for k in KINDS:
        ctxk = 'WithExecCtx' in k

        def body(r, k=k, ctxk=ctxk):
            st = reg(r, k, 'f', ['U8', 'F64'], 'I32', F1)
            yield 'accepted', st == 'OK', st
            g = lookup(r, 'f', ['U8', 'F64'])
            yield 'found with its return type and function', g == ('I32', F1), str(g)
            for bad in (['F64', 'U8'], ['U8'], ['U8', 'F64', 'U8'], ['U8', 'F32'], []):
                g = lookup(r, 'f', bad)
                yield 'not found as f(%s)' % ', '.join(bad), g is None, str(g)
            g = lookup(r, 'F', ['U8', 'F64'])
            yield 'not found under another name', g is None, str(g)
            g = lookup(r, 'f', ['U8', 'F64', 'Ptr'])
            yield 'explicit context form', g == (('I32', F1) if ctxk else None), str(g)
            st = reg(r, k, 'f', ['U8', 'F64'], 'U64', F2)
            yield 'duplicate rejected', st != 'OK', st
            g = lookup(r, 'f', ['U8', 'F64'])
            yield 'duplicate leaves the first in place', g == ('I32', F1), str(g)
            st = reg(r, k, 'f', ['U8', 'F64'], 'U64', F2, 1)
            yield 'override accepted', st == 'OK', st
            g = lookup(r, 'f', ['U8', 'F64'])
            yield 'override replaces function and return type', g == ('U64', F2), str(g)
            if ctxk:
                g = lookup(r, 'f', ['U8', 'F64', 'Ptr'])
                yield 'override replaces the explicit context form', g == ('U64', F2), str(g)
            st = reg(r, k, 'f', ['F64', 'U8'], 'U8', F3)
            yield 'another overload accepted', st == 'OK', st
            yield 'overloads kept apart', (lookup(r, 'f', ['U8', 'F64']), lookup(r, 'f', ['F64', 'U8'])) == (('U64', F2), ('U8', F3)), ''
            st = reg(r, k, 'g', ['U8'], 'U8', None)
            yield 'null function rejected', st != 'OK', st
        one(k, body)
    # mapping and attributes
    LEGAL = {'ReadOnlyCFunc': {'readonly', 'nounwind'}, 'CommutativeCFunc': {'readonly', 'nounwind', 'commutative'},
             'StoreCFunc': {'nounwind', 'argmemonly'}}
    for k in KINDS[:5]:
        for idx in (1, 2):
            if idx == 2 and k != 'StoreCFunc':
                continue

            def body(r, k=k, idx=idx):
                ctxk = 'WithExecCtx' in k
                reg(r, k, 'f', ['U8', 'U8'], 'I32', F1, 0, idx)
                reg(r, 'LLVMIntrinicFunc', 'f', ['I64'], 'I32', F2)
                reg(r, 'ReadOnlyCFunc', 'f', ['I32'], 'I32', F3)
                j = LJit(None)
                st = w.status(w.call(SB + 'MappingToJIT', r, j))
                got = {s: getattr(c.addr, 'ptr', None) for s, c in j.symbols.items()}
                # symbol emitted for a call of f(u8, u8)
                old = w.registry
                w.registry = r.v
                w.context()
                w.visit('CodeGen', w.cgc, 'FunctionNode', fn_node(w, 'f', ['U8', 'U8'], 'I32'))
                w.registry = old
                syms = list(w.mod.fns)
                yield 'call symbol mapped to its function', st == 'OK' and len(syms) == 1 and got.get(syms[0]) is F1, '%s -> %s' % (syms, got)
                yield 'exactly the native functions are mapped', sorted(x.name for x in got.values()) == ['f1', 'f3'], str(got)
                st = w.status(w.call(SB + 'SetCFuncAttr', r, w.mod))
                fn = w.mod.fns[syms[0]] if syms else None
                at = set()
                pos = set()
                for a in (fn.attrs if fn is not None else ()):
                    if a[0] == 'param':
                        pos.add(a[1] + 1)
                        if a[2] not in ('noalias', 'nocapture', 'writeonly', 'nofree'):
                            at.add('parameter ' + a[2])
                    else:
                        at.add(a[1])
                legal = LEGAL[k.replace('WithExecCtx', '')]
                yield 'attributes promise no more than the registration', st == 'OK' and at <= legal, '%s, allowed %s' % (sorted(at), sorted(legal))
                yield 'parameter attributes only on the stored-to parameter', pos <= ({idx} if k == 'StoreCFunc' else set()), str(sorted(pos))
            one('%s%s mapping' % (k, idx if k == 'StoreCFunc' else ''), body)


def fn_node(w, name, ps, ret):
    n = w.new('FunctionNode', name, w.vec([w.up(w.stub('a%d' % i, t)) for i, t in enumerate(ps)]))
    f = w.p.fn(NS + 'ExecNode::SetReturnType')
    w.it.run_fn(f, Cell(n), [w.T(ret)])
    return n
