"""Whatever sequence of compiles and loads, successful or failing anywhere, an engine runs exactly its last good program or nothing."""
from ..eng import *
from .p01 import layout
from .p17 import result_ok

EXPLAIN = ('Sequences of Compile and LoadCompiled on both engines are evaluated on the typed AST over a model of the JIT in which every '
           'fallible step (validation, code generation, verification, JIT creation, symbol definition, module or object addition, lookup) '
           'may fail at every occurrence; after every operation the program the engine would execute (JIT instance, entry symbols, result '
           'types, object bytes it would save) is compared with the abstract state machine.')
ASSUME = ['sequences of up to three operations after which state is compared; engine state is finite (empty or one program)']

PROGS = {'ExecEngine': {'A': ['U8'], 'B': ['F64List'], 'C': ['String']},
         'BatchExecEngine': {'A': ['U8', 'I64'], 'B': ['F64List'], 'C': ['String', 'U8', 'I16']}}
BAD = ('malformed', 'nullderef', 'oob')
CF = {'validate', 'codegen', 'verify', 'create', 'generator', 'define', 'addIRModule', 'lookup'}
LF = {'create', 'generator', 'define', 'addObjectFile', 'lookup'}


def run(ctx):
    w = Eng(ctx)
    w.real_text = True
    it = w.it

    def stubs(cls, pr):
        return [w.stub('%s%d' % (pr, i), t) for i, t in enumerate(PROGS[cls][pr])]

    def blob_of(cls, pr):
        """Artifact of program pr, saved by a fresh engine (no faults)."""
        w.orc.faults = set()
        e = w.engine(cls)
        if w.do_compile(e, cls, stubs(cls, pr)) != 'OK':
            raise Broken('compile of a plain program fails')
        st, b = w.do_save(e, cls)
        return b if st == 'OK' else None

    def obj_of(blob):
        st, h, o = w.parse(blob)
        return o if st == 'OK' else None

    def observe(e, cls, n):
        """What the engine would run: None or list of (jit, entry name, boxed result)."""
        w.orc.faults = set()
        out = []
        if cls == 'ExecEngine':
            s, calls, r = w.do_execute(e, cls)
            out.append((s, calls, r))
        else:
            for i in range(n + 1):
                out.append(w.do_execute(e, cls, i))
        own = w.owned_jits(e)
        return out, own, w.do_save(e, cls)

    def state_why(cls, obs, exp, save):
        """exp: None | (program, loaded blob or None)."""
        out, own, (sst, sblob) = obs
        if exp is None:
            for s, calls, r in out:
                if calls:
                    return 'runs native code although it holds no program'
                if s == 'OK':
                    return 'reports success although it holds no program'
            if sst == 'OK':
                return 'saves an artifact although it holds no program'
            return None
        pr, blob = exp
        types = PROGS[cls][pr]
        for i, (s, calls, r) in enumerate(out):
            if cls != 'ExecEngine' and i >= len(types):
                if calls or s == 'OK':
                    return 'index %d of %d entries is executable' % (i, len(types))
                continue
            name = 'entry' if cls == 'ExecEngine' else 'entry%d' % i
            if s != 'OK' or len(calls) != 1:
                return 'entry %d of its program %s cannot be executed (%s)' % (i, pr, s)
            a = calls[0]['addr']
            if not isinstance(a, LAddr):
                return 'entry %d is not a JIT address' % i
            if not any(a.jit is j for j in own):
                return 'entry %d points into a JIT the engine has released' % i
            if a.name != name:
                return 'entry %d is bound to %s' % (i, a.name)
            if blob is None:
                fs = [m.mod.fns[name] for m in a.jit.modules if name in m.mod.fns]
                kids = [x.kw['name'] for f in fs for b in f.blocks for x in b.insts if x.op == 'child']
                if kids != ['%s%d' % (pr, i)]:
                    return 'entry %d runs %s instead of %s%d' % (i, kids, pr, i)
            else:
                tx = [o.text for o in a.jit.objects]
                if tx != [obj_of(blob)]:
                    return 'entry %d runs object code %r of another program' % (i, tx)
            okr, y = result_ok(w, types[i], name, w.listlen, r)
            if not okr:
                return 'entry %d: %s' % (i, y)
        if blob is None and save:
            if sst != 'OK':
                return 'a compiled program cannot be saved'
            st, h, o = w.parse(sblob)
            j = out[0][1][0]['addr'].jit
            if st != 'OK' or o != 'OBJ%d' % j.id:
                return 'saves object code %r, not that of its program (%s)' % (o, st)
            ts = [w.tname(c.v) for c in h.f['per_entry_ret_types'].v.c]
            if ts != types:
                return 'saves result types %s, expected %s' % (ts, types)
        elif sst == 'OK':
            return 'saves an artifact although no object code of its program was kept'
        return None

    def apply(e, cls, op, st):
        """Performs op; returns (ok, new expected state if ok, new expected state if failed)."""
        kind, pr, faults = op
        if kind == 'C':
            w.orc.faults = set(faults)
            r = w.do_compile(e, cls, stubs(cls, pr))
            w.orc.faults = set()
            return r == 'OK', (pr, None), None
        if kind == 'E':
            r = w.do_compile(e, cls, [])
            return r == 'OK', 'never', st
        b = blobs[pr] if kind == 'L' else bad[pr]
        w.orc.faults = set(faults)
        r = w.do_load(e, cls, b)
        w.orc.faults = set()
        return r == 'OK', ((pr, b) if kind == 'L' else 'never'), st

    npaths = 0
    for cls in ('ExecEngine', 'BatchExecEngine'):
        other = 'BatchExecEngine' if cls == 'ExecEngine' else 'ExecEngine'
        blobs = {}
        bad = {}

        def prep():
            for pr in 'ABC':
                blobs[pr] = blob_of(cls, pr)
            x = blob_of(other, 'B')
            return x
        outs = it.explore(prep)
        fs = w.p.fn(NS + cls + '::SaveCompiled')
        if len(outs) != 1 or outs[0]['kind'] != 'ret' or outs[0]['ret'] is None or any(b is None for b in blobs.values()):
            ctx.ob('artifact', cls, False, (fs.file, fs.line), 'a freshly compiled program cannot be saved')
            continue
        bad['mode'] = outs[0]['ret']
        bad['truncated'] = blobs['B'][:-9]
        bad['magic'] = 'X' + blobs['B'][1:]
        bad['cpu'] = blobs['B'].replace('cpu', 'xpu')
        bad['llvm'] = blobs['B'].replace('19.', '18.')
        bad['triple'] = blobs['B'].replace('triple', 'tripod')
        bad['empty'] = ''
        first = [None, ('C', 'A', ()), ('L', 'A', ())]
        mid = [('C', 'B', CF), ('L', 'B', LF)] + [('X', k, ()) for k in bad] + ([('E', '', ())] if cls != 'ExecEngine' else [])
        last = [None, ('C', 'C', ()), ('L', 'C', ())]
        if ctx.thorough:
            last = [None, ('C', 'C', CF), ('L', 'C', LF)]
        floc = {'C': w.p.fn(NS + cls + '::Compile'), 'L': w.p.fn(NS + cls + '::LoadCompiled')}
        floc['X'] = floc['L']
        floc['E'] = floc['C']
        for save in (1, 0):
            for o1 in first:
                for o2 in mid:
                    for o3 in last:
                        if o3 is None and not (o1 is None or True):
                            continue
                        names = ' '.join('%s%s' % ({'C': 'compile ', 'L': 'load ', 'X': 'load bad ', 'E': 'compile empty'}[o[0]], o[1])
                                         for o in (o1, o2, o3) if o)

                        def thunk():
                            w.arena_cells = []
                            w.orc.faults = set()
                            e = w.engine(cls, save=save)
                            st = None
                            hist = []
                            for o in (o1, o2, o3):
                                if o is None:
                                    continue
                                ok, g, b = apply(e, cls, o, st)
                                n0 = [x['what'] for x in it.events if x['kind'] == 'fault' ] if not ok else []
                                hist.append('ok' if ok else 'failed%s' % (' at ' + str(n0[-1]) if n0 else ''))
                                st = g if ok else b
                                if st == 'never':
                                    return 'accepted', hist, None
                                y = state_why(cls, observe(e, cls, 3), st, save)
                                if y:
                                    return y, hist, o
                            return None, hist, None
                        for o in it.explore(thunk):
                            npaths += 1
                            mal = [x for x in o['events'] if x['kind'] in BAD]
                            f = floc[o2[0]]
                            why = None
                            h = ''
                            if mal:
                                why = '%s %s' % (mal[0]['kind'], mal[0].get('what'))
                            elif o['kind'] != 'ret':
                                why = 'evaluation ends with %s %s' % (o['kind'], o.get('why'))
                            else:
                                y, hist, bo = o['ret']
                                h = ', '.join(hist)
                                why = y
                                if bo:
                                    f = floc[bo[0]]
                            ctx.ob('lifecycle', '%s save=%d: %s [%s]' % (cls, save, names, h), why is None, (f.file, f.line), why)
    ctx.stats.update(paths=npaths, functions=len(it.visited_funcs))
    ctx.need('lifecycle', 500)
