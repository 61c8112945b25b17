"""The Athena front ends run exactly the last successfully compiled program, through the engine, whatever failed before."""
import itertools
from ..eng import *
from ..models import strval
from .p17 import make_ctx, result_ok
from ..par import pmap

EXPLAIN = ('AthenaExpression and AthenaPipeline are evaluated on the typed AST over the real engines and the JIT model for every sequence of compiles that succeed, are rejected by the front end at any '
           'program, or fail at any step of the engine, followed by every Execute overload with and without run-time errors; what runs, with which pointers, the status, the message and the boxed result are '
           'compared with the state machine "last good program or nothing".')
ASSUME = ['tree builder and grouper replaced by stubs that succeed or fail (P27-P30 decide them)', 'sequences of up to three compiles']
A = 'athena::'
BADEV = ('malformed', 'nullderef', 'oob', 'uninit')
RESULT = {'A': ['F64'], 'B': ['String'], 'C': ['I32List']}
PIPE = {'A': ['Void', 'Void'], 'B': ['Void'], 'C': ['Void', 'Void', 'Void']}


def run(ctx):
    w = Eng(ctx)
    w.real_text = True
    it = w.it
    steps = {'validate', 'codegen', 'verify', 'create', 'generator', 'define', 'addIRModule', 'lookup'}
    # A front-end failure of program text 'bad'; anything else parses to a stub of its type
    cur = {}

    def build(it_, fd, this, a, e):
        s = strval(it_, a[0])
        cur['built'].append((fd.n, s))
        if s.startswith('bad') or not s.strip():
            return w.fail('ParseError')
        a[1].target().v = w.up(w.stub(s, cur['types'][s]))
        return w.ok()
    it.override[A + 'ProgramAstBuilder::BuildExpression'] = build
    it.override[A + 'ProgramAstBuilder::BuildPipeline'] = build

    def group(it_, fd, this, a, e):
        v = rv(a[0])
        out = [c.v for c in v.c]
        for c in v.c:
            c.v = UPtr(None)
        return w.vec(out)
    w.p.fn(A + 'PipelineGrouper::Group')
    it.override[A + 'PipelineGrouper::Group'] = group

    def new(cls):
        return Cell(w.new(A + cls, w.option(save=0), pred=lambda d: len(d.p) == 1 and d.p[0].strip().s.endswith('ExecEngineOption')))

    def compile_(cls, o, code):
        q = A + cls + '::Compile'
        reg = w.fresh_registry()
        if cls == 'AthenaExpression':
            st = w.call(q, o, Cell(code[0]), reg)
        else:
            st = w.call(q, o, Cell(w.vec(list(code))), reg)
        return w.status(st)

    def texts(cls, pr):
        return ['%s%d' % (pr, i) for i in range(len((RESULT if cls == 'AthenaExpression' else PIPE)[pr]))]
    alltypes = {}
    for pr in RESULT:
        for T, tab in (('AthenaExpression', RESULT), ('AthenaPipeline', PIPE)):
            for i, t in enumerate(tab[pr]):
                alltypes[T, '%s%d' % (pr, i)] = t

    def ops(cls):
        for pr in 'AB':
            yield ('good', pr)
        yield ('front', 'A', 0)
        yield ('blank', 'A', 0, '')
        if cls == 'AthenaPipeline':
            yield ('front', 'C', 1)
            yield ('front', 'C', 2)
            yield ('blank', 'C', 1, '')
            yield ('blank', 'C', 2, ' \n')
            yield ('empty',)
        yield ('engine', 'B')

    def exec_fns(cls):
        return [(c, w.exec_fn(A + cls + '::Execute', c, b), b) for c in (False, True) for b in ((True,) if cls == 'AthenaExpression' else (False,))]

    def case(job):
        cls, seq, k = job
        hasctx, f, boxed = exec_fns(cls)[k]
        out = []
        cur['types'] = {s: t for (c, s), t in alltypes.items() if c == cls}
        w.listlen = 2

        def thunk():
            w.arena_cells = []
            o = new(cls)
            state = None
            log = []
            for op in seq:
                cur['built'] = []
                w.orc.faults = set()
                if op[0] == 'good':
                    code = texts(cls, op[1])
                elif op[0] == 'front':
                    code = texts(cls, op[1])
                    code[op[2]] = 'bad' + code[op[2]]
                elif op[0] == 'blank':
                    code = texts(cls, op[1])
                    code[op[2]] = op[3]
                elif op[0] == 'empty':
                    code = []
                else:
                    code = texts(cls, op[1])
                    w.orc.faults = steps
                n0 = len(it.events)
                st = compile_(cls, o, code)
                w.orc.faults = set()
                fault = any(x['kind'] == 'fault' for x in it.events[n0:])
                want_built = code[:op[2] + 1] if op[0] in ('front', 'blank') else code
                kinds = {x for x, _ in cur['built']}
                if [s for _, s in cur['built']] != want_built or kinds - {'BuildExpression' if cls == 'AthenaExpression' else 'BuildPipeline'}:
                    return 'compile of %s hands %s to the builder' % (code, cur['built'])
                if op[0] == 'good' or op[0] == 'engine' and not fault:
                    if st != 'OK':
                        return 'compile of %s gives %s' % (code, st)
                    state = op[1]
                elif st == 'OK':
                    return 'compile of %s reports success' % (code,)
                elif op[0] in ('front', 'blank') and st != 'ParseError':
                    return 'a program rejected as ParseError gives %s' % st
                elif op[0] == 'engine':
                    state = None
                log.append(st)
            # execution
            w.run_error = True
            try:
                c = make_ctx(w) if hasctx else None
                argv = Cell(Sym('arg'))
                pt = f.decl.p[-1].e
                res = Cell(Sym('result buffer')) if pt.k == 'void' else Cell(it.default_value(pt))
                n0 = len(it.events)
                s = it.run_fn(f, o, ([c] if hasctx else []) + [Ptr(argv), Ptr(res)])
            finally:
                w.run_error = False
            ev = it.events[n0:]
            calls = [x for x in ev if x['kind'] == 'jitcall']
            st, msg = w.status(s), w.message(s)
            if state is None:
                if calls:
                    return 'native code runs although no program is compiled'
                if st == 'OK' and not (cls == 'AthenaPipeline'):
                    return 'execution without a program reports success'
                return None
            names = ['entry'] if cls == 'AthenaExpression' else ['entry%d' % i for i in range(len(PIPE[state]))]
            if [x['addr'].name for x in calls] != names:
                return 'runs %s, expected %s' % ([x['addr'].name for x in calls], names)
            jits = w.owned_jits(o)
            for x in calls:
                if not any(x['addr'].jit is j for j in jits):
                    return 'runs code whose owner was released'
                mod = x['addr'].jit.modules[0].mod
                made = [i.kw['name'] for b in mod.fns[x['addr'].name].blocks for i in b.insts if i.op == 'child']
                want = [texts(cls, state)[names.index(x['addr'].name)]]
                if made != want:
                    return 'entry %s computes %s, the last good program is %s' % (x['addr'].name, made, want)
                a = x['args']
                if len(a) != 3 or not (isinstance(a[0], Ptr) and a[0].cell is argv):
                    return 'the entry does not get the caller\'s argument pointer'
                cc = a[1].target() if isinstance(a[1], Ptr) else None
                if cc is None or not isinstance(cc.v, Obj) or cc.v.cls.q != NS + 'ExecContext':
                    return 'the entry gets no execution context'
                if hasctx and cc is not c:
                    return 'the entry does not get the caller\'s context'
                if not boxed and not (isinstance(a[2], Ptr) and a[2].cell is res):
                    return 'the entry does not get the caller\'s result pointer'
            # statuses
            failed, at_ = [], None
            for x in ev:
                if x['kind'] == 'jitcall':
                    at_ = x['addr'].name
                elif x['kind'] == 'runtime_error':
                    failed.append(at_)
            if bool(failed) != (st != 'OK'):
                return 'status %s, failing entries %s' % (st, failed)
            for n in failed:
                if 'boom1-' + n not in msg or 'boom2-' + n not in msg:
                    return 'the errors of %s are missing from %r' % (n, msg)
            if boxed and not failed:
                ok, y = result_ok(w, RESULT[state][0], 'entry', 2, res.v)
                if not ok:
                    return y
            if hasctx and len(c.v.f['errors'].v.c):
                return 'errors stay in the caller\'s context'
            return None
        rs = it.explore(thunk)
        bad = []
        for r in rs:
            mal = [x for x in r['events'] if x['kind'] in BADEV]
            if mal:
                bad.append('%s %s' % (mal[0]['kind'], mal[0].get('what')))
            elif r['kind'] != 'ret':
                bad.append('%s %s' % (r['kind'], r.get('why')))
            elif r['ret']:
                bad.append(r['ret'])
        return len(rs), bad

    jobs = []
    for cls in ('AthenaExpression', 'AthenaPipeline'):
        al = list(ops(cls))
        ln = (0, 1, 2, 3)
        for n in ln:
            for seq in itertools.product(al, repeat=n):
                eng = [i for i, x in enumerate(seq) if x[0] == 'engine']
                if n == 3 and not ctx.thorough and (len(eng) > 1 or eng and eng[0] == 0):
                    continue
                for k in range(2):
                    jobs.append((cls, seq, k))
    npaths = 0
    for job, (n, bad) in zip(jobs, pmap(case, jobs)):
        cls, seq, k = job
        hasctx, f, boxed = exec_fns(cls)[k]
        npaths += n
        fc = w.p.fn(A + cls + '::Compile')
        ctx.ob('expression' if cls == 'AthenaExpression' else 'pipeline', '%s, Execute%s' % ('; '.join(' '.join(map(str, x)) for x in seq) or 'nothing', ' with context' if hasctx else ''), not bad,
               (fc.file, fc.line), bad[0] if bad else '')
    # the registry handed to Compile is the one the engine compiles with
    for cls, eng in (('AthenaExpression', 'ExecEngine'), ('AthenaPipeline', 'BatchExecEngine')):
        got = []

        def ec(it_, fd, this, a, e):
            got.append((a[1], this))
            return w.fail('RuntimeError')
        it.override[NS + eng + '::Compile'] = ec
        cur['types'] = {s: t for (c, s), t in alltypes.items() if c == cls}

        def th():
            del got[:]
            cur['built'] = []
            o = new(cls)
            reg = w.fresh_registry()
            q = A + cls + '::Compile'
            st = w.call(q, o, Cell('A0') if cls == 'AthenaExpression' else Cell(w.vec(['A0'])), reg)
            return w.status(st), len(got) == 1 and got[0][0] is reg
        rs = it.explore(th)
        del it.override[NS + eng + '::Compile']
        fc = w.p.fn(A + cls + '::Compile')
        ctx.ob('registry', cls, rs[0].get('ret') == ('RuntimeError', True), (fc.file, fc.line), 'gives %s' % (rs[0].get('ret'),))
        g = w.p.fn(A + cls + '::GetIRCode')
        marks = []

        def ir(it_, fd, this, a, e):
            marks.append(1)
            return 'the ir of the engine'
        it.override[NS + eng + '::GetIRCode'] = ir
        rs = it.explore(lambda: rv(it.run_fn(g, new(cls), [])))
        del it.override[NS + eng + '::GetIRCode']
        ctx.ob('registry', cls + ' IR text', rs[0].get('ret') == 'the ir of the engine', (g.file, g.line), 'gives %s' % (rs[0].get('ret'),))
    ctx.stats.update(paths=npaths, functions=len(it.visited_funcs))
    ctx.need('expression', 80)
    ctx.need('pipeline', 200)
    ctx.need('registry', 4)
