"""Entries of a batch are compiled independently: each is accepted and generated exactly as it would be alone."""
import itertools
from ..eng import *
from ..llvmsim import Malformed, check_cfg
from ..par import pmap

EXPLAIN = ('BatchExecEngine::Compile and ExecEngine::Compile are evaluated on the typed AST with the real validator, code generator and builtin overload table for every pair, and sampled longer '
           'sequences, of a pool of entry trees; verdict, result types, and the value, calls and stores on every control-flow path of every entry function are compared with the entry compiled alone.')
ASSUME = ['pool of about forty entry trees; batches of one to three entries and of 18, 70 and 300', 'shared module-level constants are compared by content']


def pool(w):
    up, vec, S = w.up, w.vec, lambda n, t: w.up(w.stub(n, t))
    lb = [d for d in w.p.fdecls.values() if d.ctor and d.cls is not None and d.cls.q == NS + 'ConstantListValueNode' and not d.copyctor and not d.movector and d.p and not d.deleted]
    la = [d for d in w.p.fdecls.values() if d.ctor and d.cls is not None and d.cls.q == NS + 'ConstantValueNode' and not d.copyctor and not d.movector and d.p and not d.deleted]
    lalts, salts = w.m.alts(lb[0].p[0]), w.m.alts(la[0].p[0])

    def alt(alts, s):
        for i, t in enumerate(alts):
            n = t.s.replace('const ', '')
            if s in n and ('vector' in n) == (alts is lalts) and (s == 'basic_string') == ('basic_string' in n):
                if s == 'basic_string' or n == s or ('<%s,' % s) in n or ('<%s>' % s) in n:
                    return i
        raise Broken('no constant alternative %s' % s)
    names = {'U8': 'unsigned char', 'I32': 'int', 'F64': 'double', 'F32': 'float', 'String': 'basic_string', 'I64': 'long'}

    def C(t, v):
        return up(w.new('ConstantValueNode', Variant(salts, alt(salts, names[t]), Cell(v))))

    def CL(t, v):
        return up(w.new('ConstantListValueNode', Variant(lalts, alt(lalts, names[t]), Cell(Vec([Cell(x) for x in v])))))

    def op(name, l, r):
        return up(w.new('BinaryOPNode', w.bop['names'][name], Cell(l), Cell(r)))

    def un(name, c):
        return up(w.new('UnaryOPNode', w.uop['names'][name], Cell(c)))

    def fn(name, *a):
        return up(w.new('FunctionNode', name, vec(list(a))))

    def blk(*st, iso=0):
        infos, args = [], []
        for name, const, x in st:
            o = Obj(w.p.types[NS + 'VarInfo'])
            for f in w.p.rec(w.p.types[NS + 'VarInfo']).fields:
                o.f[f.name] = Cell(const if f.type.k != 'rec' else name)
            infos.append(o)
            args.append(x)
        return up(w.new('NoOPNode', vec(infos), vec(args), iso, pred=lambda d: 'VarInfo' in d.p[0].s))

    def when(*a):
        return up(w.new('IfBlockNode', vec(list(a))))

    def ref(n):
        return up(w.new('RefNode', n))

    def n0(c):
        return up(w.new(c))
    P = {}
    for t in ('I32', 'F64', 'String', 'I32List'):
        P['leaf ' + t] = lambda t=t: S('l', t)
    P['set a i32'] = lambda: blk(('a', 0, S('a1', 'I32')), ('', 0, ref('a')))
    P['set a f64'] = lambda: blk(('a', 0, S('a2', 'F64')), ('', 0, ref('a')))
    P['let a'] = lambda: blk(('a', 1, S('a3', 'I32')), ('', 0, ref('a')))
    P['use a'] = lambda: blk(('', 0, ref('a')))
    P['bare a'] = lambda: ref('a')
    P['use b'] = lambda: blk(('b', 0, ref('a')))
    P['when a'] = lambda: blk(('a', 0, S('a4', 'I32')), ('', 0, when(S('c4', 'U8'), blk(('a', 0, S('a5', 'I32'))), blk(('b', 0, S('b5', 'I32'))))), ('', 0, ref('a')))
    P['when b'] = lambda: blk(('b', 0, S('b6', 'I64')), ('', 0, when(S('c6', 'U8'), blk(('b', 0, S('b7', 'I64'))), S('d6', 'I32'), blk(('b', 0, ref('b'))))), ('', 0, ref('b')))
    P['iso'] = lambda: blk(('', 0, blk(('a', 0, S('x', 'I32')))), ('', 0, blk(('a', 1, S('y', 'F64')), ('', 0, ref('a')))), iso=1)
    P['leak'] = lambda: blk(('', 0, when(S('c', 'U8'), blk(('a', 0, S('x', 'I32'))))), ('', 0, ref('a')))
    P['if'] = lambda: up(w.new('IfNode', vec([S('c', 'U8'), S('x', 'I32'), S('y', 'F64')])))
    P['switch'] = lambda: up(w.new('SwitchNode', vec([S('c', 'I32'), S('x', 'U8'), S('d', 'F32'), S('y', 'I8'), S('z', 'I8')])))
    P['and'] = lambda: op('kAnd', S('p', 'U8'), S('q', 'I32'))
    P['or'] = lambda: op('kOr', op('kAnd', S('p', 'U8'), S('q', 'I32')), un('kNot', S('p', 'U8')))
    P['div0'] = lambda: op('kDiv', S('x', 'I32'), C('I32', 0))
    P['text+1'] = lambda: op('kAdd', S('x', 'String'), C('I32', 1))
    P['arith'] = lambda: op('kAdd', op('kMul', S('x', 'U16'), S('y', 'I32')), S('z', 'F32'))
    P['texts'] = lambda: op('kAdd', S('x', 'String'), C('String', 'ab\0c'))
    for k, (t, v) in enumerate([('U8', 7), ('I32', 7), ('F64', 7.0), ('F64', -0.0), ('F64', 0.0), ('String', 'ab'), ('String', 'abc'), ('String', '')]):
        P['const %d %s' % (k, t)] = lambda t=t, v=v: C(t, v)
    for k, (t, v) in enumerate([('U8', [1, 2]), ('I32', [1, 2]), ('I32', [1]), ('I32', [2, 1]), ('F64', [0.0]), ('F64', [-0.0]), ('String', ['a', 'b']), ('String', ['ab'])]):
        P['list %d %s' % (k, t)] = lambda t=t, v=v: CL(t, v)
    # pairs whose texts agree although they denote different values
    P['tiny 1'] = lambda: op('kAdd', S('x', 'F64'), C('F64', 1.25e-7))
    P['tiny 2'] = lambda: op('kAdd', S('x', 'F64'), C('F64', 3.75e-7))
    P['seven'] = lambda: op('kMul', S('x', 'F64'), C('I32', 7))
    P['seven u8'] = lambda: op('kMul', S('x', 'F64'), C('U8', 7))
    P['same name'] = lambda: op('kMul', S('x', 'I64'), S('x', 'I32'))
    P['same name 2'] = lambda: op('kMul', S('x', 'I32'), S('x', 'I64'))
    P['len'] = lambda: fn('Len', CL('I32', [1, 2]))
    P['sum'] = lambda: fn('Sum', CL('I32', [1, 2]))
    P['sum f'] = lambda: fn('Sum', S('x', 'F64List'))
    P['min'] = lambda: fn('min', S('x', 'I32'), S('y', 'I32'))
    P['unknown'] = lambda: fn('NoSuchFunction', S('x', 'I32'))
    P['badargs'] = lambda: fn('Sum', S('x', 'I32'))
    P['find'] = lambda: fn('StringConcat', S('x', 'String'), S('y', 'String'))
    P['args'] = lambda: blk(('e', 0, n0('EntryArgumentNode')), ('', 0, n0('ExecContextNode')), ('', 0, n0('OutputNode')))
    return P


def run(ctx):
    from ..reg import extract, hook_lookup
    w = Eng(ctx)
    w.real_text = True
    it = w.it
    w.orc.faults = set()
    hook_lookup(w, extract(w))
    P = pool(w)
    fb, fe = w.p.fn(NS + 'JitCore::BuildAndLink'), w.p.fn(NS + 'BatchExecEngine::Compile')
    at = (fb.file, fb.line)

    def content(v, seen=()):
        if isinstance(v, LGlobal):
            if any(v is x for x in seen):
                return '(cycle)'
            return ('global', str(v.vt), bool(v.isconst), content(v.init, seen + (v,)) if v.init is not None else None)
        if isinstance(v, LV):
            if v.op == 'fn':
                return ('fn', v.name, str(v.fty))
            k = tuple((a, repr(b) if not isinstance(b, (list, tuple)) else tuple(repr(x) for x in b)) for a, b in sorted(v.kw.items()) if a not in ('i', 'fn'))
            return (v.op, str(v.ty), k) + tuple(content(x, seen) for x in v.args)
        return repr(v)

    def canon(fn):
        pr = check_cfg(fn)
        if pr:
            raise Malformed(pr[0] if isinstance(pr, list) else pr)
        glob, alloc, callee = {}, {}, {}

        def visit(v):
            if isinstance(v, LGlobal) or isinstance(v, LV) and v.op in ('constdata', 'constarray'):
                if isinstance(v, LGlobal) and v.mod is not fn.mod:
                    raise Malformed('a constant of another module is used')
                glob.setdefault(v.id, content(v))
            if isinstance(v, LV) and v.op == 'arg' and not any(v is x for x in fn.params):
                raise Malformed('argument %s of another function is used' % v.kw['i'])
            if isinstance(v, LV) and v.op in ('conststruct', 'constgep', 'constarray', 'constexpr'):
                for x in v.args:
                    visit(x)
        for b in fn.blocks:
            if b.fn is not fn:
                raise Malformed('block %s of another function' % b.name)
            for i in b.insts:
                if i.op == 'alloca':
                    alloc[i.id] = len(alloc)
                if i.op == 'call':
                    f = i.kw['fn']
                    callee[f.name] = str(f.fty)
                    if f.mod is not fn.mod:
                        raise Malformed('function %s of another module is called' % f.name)
                for x in i.args:
                    for y in (x if isinstance(x, tuple) else (x,)):
                        visit(y)
                        if isinstance(y, LBB) and y.fn is not fn:
                            raise Malformed('branch into another function')

        def sub(t):
            if isinstance(t, tuple):
                if len(t) == 3 and t[0] == 'global':
                    return glob.get(t[2], t)
                if len(t) == 3 and t[0] in ('constdata', 'constarray'):
                    return glob.get(t[2], t)
                if len(t) == 4 and t[0] == 'alloca':
                    return ('alloca', alloc.get(t[2], t[2]), t[3])
                return tuple(sub(x) for x in t)
            return t
        out = set()
        for q in paths(fn.blocks[0], None):
            mem = sorted(repr((sub(k), sub(v))) for k, v in q.mem.items() if k[0] != 'alloca')
            out.add(repr((sorted(repr((sub(c), v)) for c, v in q.conds), sub(tuple(q.trace)), mem, sub(q.ret))))
        return str(fn.fty), tuple(sorted(out)), tuple(sorted(callee.items()))

    def attempt(names, cls='BatchExecEngine', before=(), other=False):
        """(status, message, ret types, canonical functions, symbols reached) or a defect text"""
        def thunk():
            e = w.engine(cls)
            old = []
            for b in before:
                x = w.engine(cls) if other else e
                w.call(NS + cls + '::Compile', x, Cell(P[b]()) if cls == 'ExecEngine' else Cell(w.vec([P[b]()])), w.fresh_registry())
                old.append(x)
            nodes = [P[n]() for n in names]
            q = NS + cls + '::Compile'
            if cls == 'ExecEngine':
                st = w.call(q, e, Cell(nodes[0]), w.fresh_registry())
            else:
                st = w.call(q, e, Cell(w.vec(nodes)), w.fresh_registry())
            s = w.status(st)
            if s != 'OK':
                return s, w.message(st), None, None
            own = w.owned_jits(e)
            if len(own) != 1 or len(own[0].modules) != 1:
                return 'BAD', 'the engine holds %d code owners with %s modules' % (len(own), [len(j.modules) for j in own]), None, None
            mod = own[0].modules[0].mod
            fns = [f for f in mod.fns.values() if f.blocks]
            out = []
            promised = set()
            for i, n in enumerate(names):
                ok, res = addr(e, cls, i)
                if not ok:
                    return 'BAD', 'entry %d: %s' % (i, res), None, None
                f = mod.fns.get(res)
                if f is None or not f.blocks:
                    return 'BAD', 'entry %d is %s, which the module does not define' % (i, res), None, None
                if f.mod is not mod:
                    return 'BAD', 'entry %d is defined in another module' % i, None, None
                promised.update(f.attrs)
                try:
                    out.append((res, canon(f)))
                except Malformed as m:
                    return 'BAD', 'entry %d: %s' % (i, m), None, None
            if len(fns) != len(names):
                return 'BAD', '%d functions for %d entries' % (len(fns), len(names)), None, None
            return 'OK', '', out, types(e, cls, len(names)), promised
        rs = it.explore(thunk)
        if len(rs) != 1:
            return 'BAD', '%d outcomes: %s' % (len(rs), [(r['kind'], r.get('why')) for r in rs][:2]), None, None
        r = rs[0]
        if r['kind'] != 'ret':
            return 'BAD', '%s %s' % (r['kind'], r.get('why')), None, None
        b = [e for e in r['events'] if e['kind'] in ('malformed', 'oob', 'nullderef', 'uninit')]
        if b:
            return 'BAD', '%s %s' % (b[0]['kind'], b[0].get('what')), None, None
        return r['ret']

    def types(e, cls, n):
        st, blob = w.do_save(e, cls)
        if st != 'OK':
            return None
        st, h, o = w.parse(blob)
        return [w.tname(c.v) for c in h.f['per_entry_ret_types'].v.c] if st == 'OK' else None

    def addr(e, cls, i):
        s, calls, r = w.do_execute(e, cls, i)
        if s != 'OK' or len(calls) != 1 or not isinstance(calls[0]['addr'], LAddr):
            return False, 'cannot be executed (%s)' % s
        return True, calls[0]['addr'].name

    names = list(P)
    single = dict(zip(names, pmap(lambda n: attempt([n]), names)))
    accept = [n for n in names if single[n][0] == 'OK']
    reject = [n for n in names if single[n][0] not in ('OK', 'BAD')]
    for n in names:
        s = single[n]
        ctx.ob('alone', n, s[0] != 'BAD', at, s[1])
    if ctx.viol:
        return
    if len(accept) < 30 or len(reject) < 6:
        raise Broken('%d entries accepted and %d rejected alone' % (len(accept), len(reject)))
    ex = dict(zip(names, pmap(lambda n: attempt([n], 'ExecEngine'), names)))
    for n in names:
        s, b = ex[n], single[n]
        why = ''
        if s[0] != b[0]:
            why = 'the single engine gives %s %s, the batch engine %s' % (s[0], s[1], b[0])
        elif s[0] == 'OK' and s[2][0][1] != b[2][0][1]:
            why = 'generated differently by the two engines'
        ctx.ob('engines', n, not why, at, why)

    # what the optimizer is told about an entry
    legal = {('param', 0, 'noalias'), ('param', 0, 'readonly'), ('param', 1, 'noalias'), ('param', 2, 'noalias')}
    legal |= {('param', i, 'noundef') for i in (0, 1, 2)} | {('fn', k) for k in ('nounwind', 'norecurse', 'mustprogress')}
    fb2 = w.p.fn(NS + 'BuildEntryFunction') if w.p.by_q.get(NS + 'BuildEntryFunction') else fb
    for n in accept:
        got = set()
        for a in single[n][4]:
            if a not in legal:
                got.add(' '.join(map(str, a)))
        ctx.ob('promise', n, not got, (fb2.file, fb2.line), 'the entry carries the attributes %s' % sorted(got))

    # an earlier compile, on the same or another engine, leaves no trace
    hist = [(a, b, c, o) for a, b in zip(names, names[7:] + names[:7]) for c in ('ExecEngine', 'BatchExecEngine') for o in (False, True)]
    hist += [(a, b, 'BatchExecEngine', o) for a in names if a.startswith(('const', 'list', 'set', 'let', 'texts')) for b in names if b.startswith(('const', 'list', 'use', 'texts')) for o in (False, True)]

    def after(h):
        a, b, c, o = h
        got, want = attempt([b], c, [a], o), (ex if c == 'ExecEngine' else single)[b]
        if got[0] == 'BAD':
            return got[1]
        if (got[0], got[1]) != (want[0], want[1]):
            return 'gives %s %s, without the earlier compile %s %s' % (got[0], got[1], want[0], want[1])
        if got[0] == 'OK' and ([x[1] for x in got[2]], got[3]) != ([x[1] for x in want[2]], want[3]):
            return 'generates other code than without the earlier compile'
    for h, why in zip(hist, pmap(after, hist)):
        ctx.ob('history', '%s, then %s on %s %s' % (h[0], h[1], 'another' if h[3] else 'the same', h[2]), not why, at, why)

    def judge(seq):
        got = attempt(seq)
        bad = [n for n in seq if single[n][0] != 'OK']
        if got[0] == 'BAD':
            return got[1]
        if bad:
            s = single[bad[0]]
            if got[0] == 'OK':
                return 'accepted although %s alone is rejected (%s)' % (bad[0], s[1])
            if (got[0], got[1]) != (s[0], s[1]):
                return 'rejected with %s %s, %s alone with %s %s' % (got[0], got[1], bad[0], s[0], s[1])
            return None
        if got[0] != 'OK':
            return 'rejected with %s %s although every entry alone is accepted' % (got[0], got[1])
        want = [single[n][3][0] if single[n][3] else None for n in seq]
        if got[3] != want:
            return 'result types %s, alone %s' % (got[3], want)
        if len({x[0] for x in got[2]}) != len(seq):
            return 'two entries share a symbol'
        for i, n in enumerate(seq):
            a, b = got[2][i][1], single[n][2][0][1]
            if a != b:
                if a[0] != b[0]:
                    return 'entry %d has signature %s, alone %s' % (i, a[0], b[0])
                d = sorted(set(a[1]) ^ set(b[1]))
                return 'entry %d differs from the entry compiled alone: %s' % (i, d[0][:300] if d else 'called functions %s / %s' % (a[2], b[2]))
        return None
    seqs = [list(x) for x in itertools.product(names, repeat=2)]
    for a in ('set a i32', 'let a', 'when a', 'iso'):
        for b in ('use a', 'bare a', 'set a f64', 'leak', 'use b', 'when b', 'let a'):
            for m in ('leaf I32', 'args', 'if', 'list 1 I32', 'set a f64'):
                seqs += [[a, m, b], [b, m, a]]
    ok = [n for n in accept]
    for k in range(0, len(ok)):
        seqs.append([ok[(k + 5 * j) % len(ok)] for j in range(3)])
    seqs.append(ok[:18])
    seqs.append(list(reversed(ok))[:18])
    seqs.append([ok[(3 * j) % len(ok)] for j in range(70)])
    seqs.append([n for n in ok if n.startswith(('const', 'leaf'))][:3] * 100)
    if ctx.thorough:
        seqs += [list(x) for x in itertools.product(names[::2], repeat=3)]
        seqs += [[ok[(k + 7 * j) % len(ok)] for j in range(30)] for k in range(40)]
    for s, why in zip(seqs, pmap(judge, seqs)):
        ctx.ob('verdict' if any(n in reject for n in s) else 'entry', ' | '.join(s), not why, at, why)
    for k, m in (('alone', 40), ('engines', 40), ('promise', 30), ('history', 500), ('verdict', 300), ('entry', 1000)):
        ctx.need(k, m)
