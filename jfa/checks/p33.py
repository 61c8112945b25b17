"""entry_arg, exec_ctx and output denote the caller's three pointers everywhere; the entry returns the program's value."""
import itertools
from ..eng import *
from ..llvmsim import Malformed, check_cfg
from ..par import pmap
from ..reg import extract, hook_lookup

EXPLAIN = ('Both engines\' Compile is evaluated on the typed AST with the real validator, code generator and builtin table for program trees that pass the special pointers to an observing function at every kind of '
           'place, and for a program of every result type; on every control-flow path of the generated entry function the observed pointers must be the entry\'s own first, second and third parameter as written, '
           'and the returned value must be the program\'s value in the native type of its result.')
ASSUME = ['places enumerated: statements, variables, call arguments (first to third, nested), conditions, branches of if / switch / when, isolated blocks, builtins with implied and written context, batches of up to three entries']
PTRS = ('EntryArgumentNode', 'ExecContextNode', 'OutputNode')
TYPES = ['U8', 'I8', 'U16', 'I16', 'U32', 'I32', 'U64', 'I64', 'F32', 'F64', 'String'] + [t + 'List' for t in ('U8', 'I8', 'U16', 'I16', 'U32', 'I32', 'U64', 'I64', 'F32', 'F64', 'String')]
BAD = ('malformed', 'oob', 'nullderef', 'uninit')


def lty(t):
    if t == 'String' or t.endswith('List'):
        return '{ptr, i32}'
    return {'F32': 'float', 'F64': 'double'}.get(t) or 'i' + t[1:]


def run(ctx):
    w = Eng(ctx)
    w.real_text = True
    it = w.it
    w.orc.faults = set()
    es = extract(w)
    model = [e for e in es if e.kind == 'C' and not e.inject and e.obj is not None and e.name == 'Sum']
    modelx = [e for e in es if e.kind == 'C' and e.inject and e.obj is not None]
    if not model or not modelx:
        raise Broken('no plain native builtin to model a user function on')
    hook_lookup(w, es)
    builtin = it.override[NS + 'FunctionRegistry::GetFuncBySign']
    f0 = w.p.fn(NS + 'JitCore::BuildAndLink')
    at = (f0.file, f0.line)
    gt = {n: w.p.fn(NS + n + '::Accept') for n in PTRS}

    def lookup(it_, fd, this, a, e):
        s = a[0].v if isinstance(a[0], Cell) else a[0]
        name = [c.v for c in s.f.values() if isinstance(c.v, str) and c.v.startswith('obs')]
        if not name:
            return builtin(it_, fd, this, a, e)
        ret = 'I32'
        for n, c in s.f.items():
            if n.startswith('ret'):
                c.v = w.T(ret)
        t = a[1].v if isinstance(a[1], Cell) else a[1]
        if isinstance(t, Ptr):
            t = t.target().v
        for n, c in (modelx if name[0] == 'obsx' else model)[0].obj.f.items():
            t.f[n].v = it_.copy(c.v)
        return w.ok()
    it.override[NS + 'FunctionRegistry::GetFuncBySign'] = lookup

    up, vec = w.up, w.vec

    def S(n, t):
        return up(w.stub(n, t))

    def n0(i):
        return up(w.new(PTRS[i]))

    def fn(name, *a):
        return up(w.new('FunctionNode', name, vec(list(a))))

    def obs(*idx):
        return fn('obs', *[n0(i) if isinstance(i, int) else i for i in idx])

    def blk(*st, iso=0):
        infos, args = [], []
        for name, x in st:
            o = Obj(w.p.types[NS + 'VarInfo'])
            for f in w.p.rec(w.p.types[NS + 'VarInfo']).fields:
                o.f[f.name] = Cell(0 if f.type.k != 'rec' else name)
            infos.append(o)
            args.append(x)
        return up(w.new('NoOPNode', vec(infos), vec(args), iso, pred=lambda d: 'VarInfo' in d.p[0].s))

    def ref(n):
        return up(w.new('RefNode', n))

    def node(c, *a):
        return up(w.new(c, vec(list(a))))
    A = [('arg', 'ptr', i) for i in range(3)]

    # name -> (tree maker, set of possible observation sequences; an observation is a tuple of pointer indices)
    T = {}
    for p in itertools.product(range(3), repeat=1):
        T['obs%s' % (p,)] = (lambda p=p: obs(*p), {(p,)})
    for p in itertools.product(range(3), repeat=2):
        T['obs%s' % (p,)] = (lambda p=p: obs(*p), {(p,)})
    for p in itertools.permutations(range(3)):
        T['obs%s' % (p,)] = (lambda p=p: obs(*p), {(p,)})
    for i, j, k in itertools.permutations(range(3)):
        T['variables %d%d%d' % (i, j, k)] = (lambda i=i, j=j, k=k: blk(('p', n0(i)), ('q', n0(j)), ('r', n0(k)), ('', obs(ref('r'), ref('p'), ref('q'))), ('q', ref('r')), ('', obs(ref('q'), n0(i)))),
                                             {((k, i, j), (k, i))})
        T['nested %d%d%d' % (i, j, k)] = (lambda i=i, j=j, k=k: obs(fn('obs', n0(i), n0(j)), n0(k)), {((i, j), ('call', k))})
        T['if %d%d%d' % (i, j, k)] = (lambda i=i, j=j, k=k: node('IfNode', obs(i), obs(j), obs(k)), {((i,), (j,)), ((i,), (k,))})
        T['pointer arms %d%d%d' % (i, j, k)] = (lambda i=i, j=j, k=k: node('SwitchNode', S('c', 'U8'), obs(i, j), S('d', 'I32'), obs(j, k), obs(k, i)), {((i, j),), ((j, k),), ((k, i),)})
        T['when %d%d%d' % (i, j, k)] = (lambda i=i, j=j, k=k: blk(('p', n0(i)), ('', node('IfBlockNode', obs(j), blk(('p', n0(i)), ('', obs(ref('p'), n0(j)))), S('c', 'U8'), blk(('', obs(k))), blk(('', obs(ref('p')))))), ('', obs(n0(k), n0(i)))),
                                        {((j,), (i, j), (k, i)), ((j,), (k,), (k, i)), ((j,), (i,), (k, i))})
    for i, j in itertools.permutations(range(3), 2):
        T['isolated %d%d' % (i, j)] = (lambda i=i, j=j: blk(('', blk(('p', n0(i)), ('', obs(ref('p'))))), ('', blk(('p', n0(j)), ('', obs(ref('p'))))), iso=1), {((i,), (j,))})
        T['statements %d%d' % (i, j)] = (lambda i=i, j=j: blk(('', n0(i)), ('', obs(j)), ('', n0(j)), ('', obs(i))), {((j,), (i,))})
        T['and %d%d' % (i, j)] = (lambda i=i, j=j: up(w.new('BinaryOPNode', w.bop['names']['kAnd'], Cell(obs(i)), Cell(obs(j)))), {((i,),), ((i,), (j,))})
        T['sum %d%d' % (i, j)] = (lambda i=i, j=j: up(w.new('BinaryOPNode', w.bop['names']['kAdd'], Cell(obs(i, j)), Cell(obs(j)))), {((i, j), (j,))})

    # user functions whose context is implied: it follows whatever arguments are written
    for n in range(4):
        for p in itertools.product(range(3), repeat=n):
            T['implied %s' % (p,)] = (lambda p=p: fn('obsx', *[n0(i) for i in p]), {(p + (1,),)})
            T['implied after a number %s' % (p,)] = (lambda p=p: fn('obsx', *[S('k', 'U32')] + [n0(i) for i in p]), {(('child',) + p + (1,),)})
            T['implied before a number %s' % (p,)] = (lambda p=p: fn('obsx', *[n0(i) for i in p] + [S('k', 'U32')]), {(p + ('child', 1),)})
    for n in (8, 17, 40):
        p = tuple((i * i + i // 3) % 3 for i in range(n))
        T['%d arguments' % n] = (lambda p=p: obs(*p), {(p,)})
        T['implied after %d arguments' % n] = (lambda p=p: fn('obsx', *[n0(i) for i in p]), {(p + (1,),)})
    T['implied nested'] = (lambda: fn('obsx', fn('obsx', n0(2)), fn('obs', n0(0), n0(1))), {((2, 1), (0, 1), ('call', 'call', 1))})

    # builtins that need the context: the execution context is their last argument, written or not
    byname = {}
    for e in es:
        if e.kind == 'C' and e.params[-1:] == ['Ptr'] and not e.name.startswith('__'):
            byname.setdefault((e.name, tuple(e.params[:-1])), {})['written'] = e
        elif e.kind == 'C' and e.inject:
            byname.setdefault((e.name, tuple(e.params)), {})['implied'] = e
    pick = {}
    for (n, ps), d in sorted(byname.items()):
        if ctx.thorough or sum(1 for k in pick if k[0] == n) < 2:
            pick[n, ps] = d
    for (n, ps), d in pick.items():
        for form in d:
            T['%s(%s) %s context' % (n, ', '.join(ps), form)] = (lambda n=n, ps=ps, form=form: blk(('', fn(n, *[S('s%d' % i, t) for i, t in enumerate(ps)] + ([n0(1)] if form == 'written' else [])))), ('last', n))

    def compile_(cls, mk, hist):
        e = w.engine(cls)
        q = NS + cls + '::Compile'
        for h in hist:
            w.call(q, e, Cell(h()) if cls == 'ExecEngine' else Cell(vec([h()])), w.fresh_registry())
        st = w.call(q, e, Cell(mk[0]()) if cls == 'ExecEngine' else Cell(vec([m() for m in mk])), w.fresh_registry())
        if w.status(st) != 'OK':
            return 'is rejected: %s %s' % (w.status(st), w.message(st)), None
        own = w.owned_jits(e)
        if len(own) != 1 or len(own[0].modules) != 1:
            return 'the engine holds %d code owners' % len(own), None
        mod = own[0].modules[0].mod
        out = []
        for i in range(len(mk)):
            s, calls, r = w.do_execute(e, cls, i)
            if s != 'OK' or len(calls) != 1 or not isinstance(calls[0]['addr'], LAddr):
                return 'entry %d cannot be executed (%s)' % (i, s), None
            f = mod.fns.get(calls[0]['addr'].name)
            if f is None or not f.blocks:
                return 'entry %d is not defined' % i, None
            out.append(f)
        return None, out

    def evaluate(cls, mk, hist, judge):
        def thunk():
            why, fs = compile_(cls, mk, hist)
            if why:
                return why
            for i, f in enumerate(fs):
                pr = check_cfg(f)
                if pr:
                    return 'entry %d: %s' % (i, pr[0] if isinstance(pr, list) else pr)
                try:
                    x = judge[i](f)
                except Malformed as m:
                    x = str(m)
                if x:
                    return 'entry %d %s' % (i, x) if len(fs) > 1 else x
            return None
        rs = it.explore(thunk)
        if len(rs) != 1 or rs[0]['kind'] != 'ret':
            return '%s' % [(r['kind'], r.get('why')) for r in rs][:2]
        b = [x for x in rs[0]['events'] if x['kind'] in BAD]
        return '%s %s' % (b[0]['kind'], b[0].get('what')) if b else rs[0]['ret']

    def sees(want):
        def j(f):
            got = set()
            for q in paths(f.blocks[0], None):
                seq = []
                for t in q.trace:
                    if t[0] != 'call':
                        continue
                    if isinstance(want, tuple):
                        if t[1].startswith(want[1] + '('):
                            seq.append(t[2][-1] if t[2] else None)
                    elif t[1].startswith('obs'):
                        seq.append(tuple(x[2] if x[:2] == ('arg', 'ptr') else x[0] for x in t[2]))
                got.add(tuple(seq))
            if isinstance(want, tuple):
                return None if got == {(A[1],)} else 'hands %s to the builtin as context' % (got,)
            return None if got == want else 'observes parameters %s, written were %s' % (sorted(map(repr, got)), sorted(map(repr, want)))
        return j

    def gives(t, val):
        def j(f):
            if str(f.fty.ret) != ('void' if t is None else lty(t)) or len(f.params) != 3:
                return 'is the native function %s for a result of %s' % (f.fty, t)
            got = {q.ret for q in paths(f.blocks[0], None)}
            want = {('void',)} if t is None else val
            return None if got == want else 'returns %s instead of %s' % (sorted(map(repr, got)), sorted(map(repr, want)))
        return j
    work = []
    for name, (mk, want) in T.items():
        for cls in ('ExecEngine', 'BatchExecEngine'):
            if cls == 'BatchExecEngine' and isinstance(want, tuple):
                continue
            work.append(('pointers', '%s on %s' % (name, cls), cls, [mk], [], [sees(want)]))
    few = [n for n in T if n.startswith(('variables', 'if', 'when 0', 'obs(0, 1, 2', 'obs(2, 1, 0', 'nested 2'))][:12]
    for a, b in itertools.permutations(few, 2):
        work.append(('pointers', '%s beside %s' % (a, b), 'BatchExecEngine', [T[a][0], T[b][0]], [], [sees(T[a][1]), sees(T[b][1])]))
    for a in few:
        work.append(('pointers', '%s after another program' % a, 'ExecEngine', [T[a][0]], [T[few[0]][0]], [sees(T[a][1])]))
    for t in TYPES:
        c = ('child', lty(t), 'x', 1)
        d = ('child', lty(t), 'z', 1)
        forms = {'value': (lambda t=t: S('x', t), {c}), 'if': (lambda t=t: node('IfNode', S('c', 'U8'), S('x', t), S('z', t)), {c, d}),
                 'switch': (lambda t=t: node('SwitchNode', S('c', 'U8'), S('x', t), S('d', 'I32'), S('z', t), S('w', t)), {c, d, ('child', lty(t), 'w', 1)})}
        for k, (mk, val) in forms.items():
            for cls in ('ExecEngine', 'BatchExecEngine'):
                work.append(('result', '%s %s on %s' % (t, k, cls), cls, [mk], [], [gives(t, val)]))
            work.append(('result', '%s %s beside another' % (t, k), 'BatchExecEngine', [lambda: S('o', 'F64'), mk, lambda: S('u', 'U8')], [],
                         [gives('F64', {('child', 'double', 'o', 1)}), gives(t, val), gives('U8', {('child', 'i8', 'u', 1)})]))
    work.append(('result', 'no value', 'BatchExecEngine', [lambda: blk(('', blk(('v', S('x', 'I32')))))], [], [gives(None, None)]))
    for x, why in zip(work, pmap(lambda k: evaluate(*work[k][2:]), range(len(work)))):
        ctx.ob(x[0], x[1], why is None, at, why)
    ctx.need('pointers', 200)
    ctx.need('result', 150)
