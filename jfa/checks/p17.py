"""Executing a compiled program calls exactly its entry, returns exactly its result, and reports runtime errors."""
from ..eng import *
from .p01 import layout

EXPLAIN = ('Both engines are evaluated on the typed AST over a model of the JIT (opaque arguments and entry results): for every result '
           'type, every Execute/ExecuteAt/ExecuteAll overload and every outcome of the entry (with and without runtime errors) the native '
           'calls made, their types and arguments, the boxed result, the reported status and the state of the caller\'s context are '
           'compared with the protocol.')
ASSUME = ['results of list and string type are analysed for lengths 0, 2 and 66000', 'batches of 1 to 3 entries']

BIG = 66000      # beyond any 16-bit length
BAD = ('malformed', 'nullderef', 'oob')


def sgless(t):
    return t.replace('I', 'U', 1) if t in NUMS else t


def targ(t):
    x = t.ta[0]
    return x[1] if isinstance(x, tuple) else x


def make_ctx(w):
    c = Cell(w.new('ExecContext', 4096))
    return c


def result_ok(w, T, n, k, val):
    """Boxed result val against the opaque result of entry n (list length k)."""
    if T == 'Void':
        return True, ''
    if not isinstance(val, Variant):
        return False, 'not a variant: %r' % (val,)
    alt = val.ty
    v = val.c.v
    ts = alt.s.replace('const ', '')
    if T == 'String':
        return isinstance(v, str) and v == (n + '\0' + 'x' * k if k else ''), 'string result is %r' % (v[:80] if isinstance(v, str) else v,)
    if T == 'StringList':
        x = [c.v for c in v.c] if isinstance(v, Vec) else v
        return x == ['%s\0.%d' % (n, i) for i in range(k)], 'string list result is %d elements %r' % (len(x), x[:5])
    if is_list(T):
        if not isinstance(v, Vec):
            return False, 'result is %r' % (v,)
        x = [c.v for c in v.c]
        et = layout(w.p, targ(alt))
        if et is not None and et != elem(T):
            return False, 'result vector of %s' % et
        okv = len(x) == k and all(isinstance(s, Sym) and s.t == ('elem', n, i) for i, s in enumerate(x))
        return okv, 'list result is %d elements %r' % (len(x), x[:5])
    if layout(w.p, alt) != T:
        return False, 'boxed as %s' % ts
    return isinstance(v, Sym) and v.t == ('retval', n), 'result is %r' % (v,)


def run(ctx):
    w = Eng(ctx)
    w.real_text = True
    w.orc.faults = set()
    it = w.it

    def blank(f):
        pt = f.decl.p[-1].e
        if pt.k == 'void':
            return Cell(Sym('result buffer'))
        return Cell(it.default_value(pt))

    def since(o, mark):
        ev = o['events']
        i = max([j for j, e in enumerate(ev) if e['kind'] == 'mark'] or [-1])
        return ev[i + 1:]

    def check(rule, inst, f, o, judge):
        loc = (f.file, f.line)
        ev = since(o, 'mark')
        mal = [x for x in ev if x['kind'] in BAD]
        if o['kind'] != 'ret':
            ctx.ob(rule, inst, False, loc, 'evaluation ends with %s %s' % (o['kind'], o.get('why')))
            return
        if mal:
            ctx.ob(rule, inst, False, mal[0].get('loc') or loc, '%s %s' % (mal[0]['kind'], mal[0].get('what')))
            return
        why = judge(ev, o['ret'])
        ctx.ob(rule, inst, why is None, loc, why)

    def ctx_clean(c):
        f = c.v.f['errors'].v
        return len(f.c) == 0

    def call_why(calls, want, boxed, ctxc, argv, resc, jits):
        """want: list of (entry, type)."""
        if [c['addr'].name for c in calls] != [n for n, _ in want]:
            return 'calls %s, expected %s' % ([c['addr'].name for c in calls], [n for n, _ in want])
        for c, (n, T) in zip(calls, want):
            if not any(c['addr'].jit is j for j in jits):
                return 'calls into a JIT the engine no longer owns'
            lay = layout(w.p, c['ret'])
            if boxed and sgless(lay) != sgless(T):
                return 'entry of type %s called as a function returning %s' % (T, lay)
            if not boxed and lay != 'Void' and sgless(lay) != sgless(T):
                return 'entry of type %s called as a function returning %s' % (T, lay)
            a = c['args']
            if len(a) != 3:
                return 'called with %d arguments' % len(a)
            if not (isinstance(a[0], Ptr) and a[0].cell is argv):
                return 'first argument is not the caller\'s argument pointer'
            x = a[1].target() if isinstance(a[1], Ptr) else None
            if x is None or not isinstance(x.v, Obj) or x.v.cls.q != NS + 'ExecContext':
                return 'second argument is not an execution context'
            if ctxc is not None and x is not ctxc:
                return 'second argument is not the caller\'s context'
            if boxed:
                pass
            elif not (isinstance(a[2], Ptr) and a[2].cell is resc):
                return 'third argument is not the caller\'s result pointer'
        return None

    TT = [t for t in ALLT if t != 'Ptr']

    def one(cls, types, T, mode, hasctx, boxed, k, idx=0):
        """mode: at | out | fresh."""
        q = NS + (cls + ('::Execute' if cls == 'ExecEngine' else '::ExecuteAt'))
        f = w.exec_fn(q, hasctx, boxed)
        w.listlen = k
        st = {}

        def thunk():
            w.arena_cells = []
            e = w.engine(cls)
            if mode != 'fresh':
                stubs = [w.stub('n%d' % i, t) for i, t in enumerate(types)]
                if w.do_compile(e, cls, stubs) != 'OK':
                    raise Broken('compile of %s failed' % types)
            w.run_error = True
            try:
                c = make_ctx(w) if hasctx else None
                argv = Cell(Sym('arg'))
                res = blank(f)
                before = res.v
                it.event('mark')
                a = ([] if cls == 'ExecEngine' else [idx]) + ([c] if hasctx else []) + [Ptr(argv), Ptr(res)]
                s = w.it.run_fn(f, e, a)
                jits = w.owned_jits(e)
                return dict(st=w.status(s), msg=w.message(s), ctx=c, arg=argv, res=res, before=before, jits=jits)
            finally:
                w.run_error = False
        inst = '%s %s%s%s of %s%s' % (cls, 'at %d ' % idx if cls != 'ExecEngine' else '', 'boxed' if boxed else 'raw', ' ctx' if hasctx else '',
                                      T, '[%s]' % k if is_list(T) or T == 'String' else '')
        outs = it.explore(thunk)
        errs = 0
        for o in outs:
            def judge(ev, r):
                nonlocal errs
                calls = [x for x in ev if x['kind'] == 'jitcall']
                if mode != 'at':
                    if calls:
                        return 'native code called although nothing %s' % ('is compiled' if mode == 'fresh' else 'exists at that index')
                    if r['st'] == 'OK':
                        return 'reported success'
                    return None
                n = 'entry' if cls == 'ExecEngine' else 'entry%d' % idx
                y = call_why(calls, [(n, T)], boxed, r['ctx'], r['arg'], r['res'], r['jits'])
                if y:
                    return y
                failed = any(x['kind'] == 'runtime_error' for x in ev)
                if failed:
                    errs += 1
                    if r['st'] != 'RuntimeError':
                        return 'runtime errors were recorded but the status is %s' % r['st']
                    for b in ('boom1-' + n, 'boom2-' + n):
                        if b not in r['msg']:
                            return 'the error message %r does not carry the recorded error %r' % (r['msg'], b)
                elif r['st'] != 'OK':
                    return 'status %s although no error was recorded' % r['st']
                if boxed and not failed:
                    okr, y = result_ok(w, T, n, k, r['res'].v)
                    if not okr:
                        return y
                if hasctx:
                    if not ctx_clean(r['ctx']):
                        return 'errors left in the caller\'s context'
                    rst = [i for i, x in enumerate(ev) if x['kind'] == 'arena_reset']
                    jc = [i for i, x in enumerate(ev) if x['kind'] == 'jitcall']
                    if not rst or rst[-1] < jc[-1]:
                        return 'the caller\'s arena is not reset after the call'
                return None
            check('execute' if mode == 'at' else 'nothing-executed', inst + ('' if mode == 'at' else ' (%s)' % mode), f, o, judge)
        if mode == 'at':
            ctx.ob('error-path', inst, errs > 0 or bool(ctx.viol), (f.file, f.line), 'no path on which a runtime error is reported')
        return len(outs)

    def lens(T, boxed):
        if not boxed:
            return (0, 2) if is_list(T) or T == 'String' else (2,)
        if T == 'StringList' and not ctx.thorough:
            return (0, 2, 300)
        return (0, 2, BIG) if is_list(T) or T == 'String' else (2,)

    for hasctx in (False, True):
        for boxed in (True, False):
            for T in TT:
                for k in lens(T, boxed):
                    one('ExecEngine', [T], T, 'at', hasctx, boxed, k)
                    one('BatchExecEngine', ['U8', T, 'I64'], T, 'at', hasctx, boxed, k, idx=1)
            for i, T in enumerate(['F64', 'U32List', 'String']):
                one('BatchExecEngine', ['F64', 'U32List', 'String'], T, 'at', hasctx, boxed, 2, idx=i)
            one('ExecEngine', [], 'none', 'fresh', hasctx, boxed, 2)
            one('BatchExecEngine', [], 'none', 'fresh', hasctx, boxed, 2)
            for types in (['U8'], ['F64', 'U32']):
                for i in (len(types), len(types) + 1, (1 << 64) - 1, 1 << 32):
                    one('BatchExecEngine', types, 'none', 'out', hasctx, boxed, 2, idx=i)

    # ---- ExecuteAll ----
    for hasctx in (False, True):
        for boxed in (True, False):
            f = w.exec_fn(NS + 'BatchExecEngine::ExecuteAll', hasctx, boxed)
            for types in ([], ['I32'], ['U8', 'F64List'], ['String', 'I16', 'StringList'], ['I64', 'I64', 'U8'], ['F32List', 'Void', 'U64'], ['U8', 'F64', 'I32', 'String', 'I64List', 'F32', 'I16'] * 6):
                for pre in ((0, 5) if boxed else (0,)):
                    def thunk():
                        w.arena_cells = []
                        e = w.engine('BatchExecEngine')
                        if types and w.do_compile(e, 'BatchExecEngine', [w.stub('n%d' % i, t) for i, t in enumerate(types)]) != 'OK':
                            raise Broken('compile of %s failed' % types)
                        w.run_error = len(types) < 8
                        try:
                            c = make_ctx(w) if hasctx else None
                            argv = Cell(Sym('arg'))
                            res = blank(f)
                            if pre:
                                et = targ(f.decl.p[-1].e)
                                res.v.c.extend(Cell(it.default_value(et)) for _ in range(pre))
                            it.event('mark')
                            s = w.it.run_fn(f, e, ([c] if hasctx else []) + [Ptr(argv), Ptr(res)])
                            return dict(st=w.status(s), msg=w.message(s), ctx=c, arg=argv, res=res, jits=w.owned_jits(e))
                        finally:
                            w.run_error = False
                    inst = 'ExecuteAll %s%s of %s%s' % ('boxed' if boxed else 'raw', ' ctx' if hasctx else '', types, ' into a used vector' if pre else '')
                    outs = it.explore(thunk)
                    combos = set()
                    for o in outs:
                        def judge(ev, r):
                            want = [('entry%d' % i, t) for i, t in enumerate(types)]
                            calls = [x for x in ev if x['kind'] == 'jitcall']
                            y = call_why(calls, want, boxed, r['ctx'], r['arg'], r['res'], r['jits'])
                            if y:
                                return y
                            bad = set()
                            cur = None
                            for x in ev:
                                if x['kind'] == 'jitcall':
                                    cur = x['addr'].name
                                elif x['kind'] == 'runtime_error':
                                    bad.add(cur)
                            combos.add(frozenset(bad))
                            if bool(bad) != (r['st'] != 'OK'):
                                return 'status %s with failing entries %s' % (r['st'], sorted(bad))
                            for n in bad:
                                if 'boom1-' + n not in r['msg']:
                                    return 'error of %s missing from the message %r' % (n, r['msg'])
                            for n, t in want:
                                if n not in bad and 'boom1-' + n in r['msg']:
                                    return 'error of %s reported for another entry' % n
                            if boxed:
                                rs = r['res'].v.c
                                if len(rs) != len(types):
                                    return '%d results for %d entries' % (len(rs), len(types))
                                for i, t in enumerate(types):
                                    if 'entry%d' % i in bad:
                                        continue
                                    okr, y = result_ok(w, t, 'entry%d' % i, 2, rs[i].v)
                                    if not okr:
                                        return 'result %d: %s' % (i, y)
                            if hasctx and not ctx_clean(r['ctx']):
                                return 'errors left in the caller\'s context'
                            if hasctx and types:
                                rst = [i for i, x in enumerate(ev) if x['kind'] == 'arena_reset']
                                jc = [i for i, x in enumerate(ev) if x['kind'] == 'jitcall']
                                if not rst or rst[-1] < jc[-1]:
                                    return 'the caller\'s arena is not reset'
                            return None
                        w.listlen = 2
                        check('execute-all', inst, f, o, judge)
                    if not ctx.viol:
                        ctx.ob('execute-all-outcomes', inst, len(combos) == (2 ** len(types) if len(types) < 8 else 1), (f.file, f.line), '%d outcome combinations' % len(combos))

    # ---- the entry function has the layout the executor calls it with, and returns the node's value ----
    for cls in ('ExecEngine', 'BatchExecEngine'):
        for T in TT:
            def thunk():
                e = w.engine(cls)
                stubs = [w.stub('n0', T)] if cls == 'ExecEngine' else [w.stub('n0', 'U8'), w.stub('n1', T)]
                return w.do_compile(e, cls, stubs), w.owned_jits(e)
            n = 'entry' if cls == 'ExecEngine' else 'entry1'
            s = 'n0' if cls == 'ExecEngine' else 'n1'
            f = w.p.fn(NS + cls + '::Compile')
            for o in it.explore(thunk):
                why = None
                if o['kind'] != 'ret' or o['ret'][0] != 'OK':
                    why = 'compilation fails'
                else:
                    fs = [m.mod.fns[n] for j in o['ret'][1] for m in j.modules if n in m.mod.fns]
                    if len(fs) != 1:
                        why = '%d functions named %s' % (len(fs), n)
                    else:
                        fn = fs[0]
                        if str(fn.fty.ret) != str(LTY[T]) or tuple(fn.fty.elts) != (PTR, PTR, PTR):
                            why = 'entry function type is %s' % (fn.fty,)
                        else:
                            pr = check_cfg(fn)
                            ps = []
                            try:
                                ps = paths(fn.blocks[0], None) if not pr else []
                            except Malformed as m:
                                pr = [str(m)]
                            want = ('void',) if T == 'Void' else child(s, T)
                            if pr:
                                why = pr[0]
                            for x in ps:
                                if x.trace != [('child', s)]:
                                    why = 'evaluates %s' % (x.trace,)
                                elif x.ret != want:
                                    why = 'returns %s instead of the value of its node' % show(x.ret)
                ctx.ob('entry-function', '%s %s' % (cls, T), why is None, (f.file, f.line), why)

    ctx.stats.update(functions=len(it.visited_funcs), calls=it.ncalls)
    ctx.need('execute', 4 * 23 * 2 * 2)
    ctx.need('execute-all', 20)
    ctx.need('entry-function', 40)
    ctx.need('nothing-executed', 8)
