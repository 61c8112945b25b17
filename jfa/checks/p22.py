"""Every compile honours the options the engine was constructed with, strict floating point above all."""
import itertools
import re
from ..eng import *
from ..models import strval
from ..query import refs, nodes, line

EXPLAIN = ('Both engines are evaluated on the typed AST over the JIT model for every option combination and operation history: the target options, the IR text and the '
           'context each compile and execution sees are compared with the options the engine was constructed with; every function of the library is searched '
           'for LLVM interfaces that relax floating-point semantics.')
ASSUME = ['without relaxed target options and without fast-math flags LLVM preserves IEEE semantics; default target options are IEEE conforming']

# LLVM interfaces through which a front end relaxes floating-point semantics
RELAX = re.compile(r'^llvm::(FastMathFlags::set\w+|FastMathFlags::getFast|Instruction::(setFast|setFastMathFlags|setHas(AllowReassoc|NoNaNs|NoInfs|'
                   r'NoSignedZeros|AllowReciprocal|AllowContract|ApproxFunc)|copyFastMathFlags)|IRBuilderBase::(setFastMathFlags|setDefaultFPMathTag|setIsFPConstrained)|'
                   r'MDBuilder::createFPMath)$')
ATTRS = re.compile(r'unsafe-fp-math|no-nans-fp-math|no-infs-fp-math|no-signed-zeros-fp-math|approx-func-fp-math|denormal-fp-math')
# target option fields and the values that keep IEEE semantics
STRICT = {'AllowFPOpFusion': lambda v: v != 0, 'UnsafeFPMath': lambda v: not v, 'NoInfsFPMath': lambda v: not v, 'NoNaNsFPMath': lambda v: not v,
          'NoSignedZerosFPMath': lambda v: not v, 'ApproxFuncFPMath': lambda v: not v, 'NoTrappingFPMath': lambda v: True}
BADEV = ('malformed', 'nullderef', 'oob')


def run(ctx):
    w = Eng(ctx)
    w.real_text = True
    it = w.it
    w.orc.faults = set()

    # the only relaxations are target options; no instruction flag, attribute or metadata
    nfn = 0
    for key in sorted(w.p.funcs):
        f = w.p.funcs[key]
        if not f.file.startswith(('src/', 'include/')):
            continue
        nfn += 1
        bad = [(d.q, x) for d, x in refs(f) if RELAX.match(re.sub(r'<.*>', '', d.q))]
        bad += [(x['v'], x) for x in nodes(f) if x.get('k') == 'str' and isinstance(x.get('v'), str) and ATTRS.search(x['v'])]
        ctx.ob('no-relaxing-interface', f.q.split('(')[0], not bad, line(bad[0][1], f) if bad else (f.file, f.line),
               'uses %s' % bad[0][0] if bad else None)
    fm = w.p.enum(NS + 'FPMathMode')['names']
    fj = w.p.fn(NS + 'JitCore::CreateJit') if w.p.by_q.get(NS + 'JitCore::CreateJit') else w.p.fn(NS + 'JitCore::BuildAndLink')
    npaths = 0
    for cls in ('ExecEngine', 'BatchExecEngine'):
        blobs = {}

        def prep():
            for fp in fm:
                e = w.engine(cls, save=1, fp=fp)
                if w.do_compile(e, cls, [w.stub('x', 'F64')]) != 'OK':
                    raise Broken('compile of a plain program fails')
                st, b = w.do_save(e, cls)
                if st != 'OK':
                    return None
                blobs[fp] = b
            return 1
        outs = it.explore(prep)
        if len(outs) != 1 or outs[0].get('ret') != 1:
            raise Broken('no artifact to load')
        fc, fl, fi, fe = (w.p.fn(NS + cls + '::Compile'), w.p.fn(NS + cls + '::LoadCompiled'), w.p.fn(NS + cls + '::GetIRCode'),
                          w.exec_fn(NS + (cls + ('::Execute' if cls == 'ExecEngine' else '::ExecuteAt')), False, True))
        hist = [()]
        ops = ['C', 'F', 'Lstrict', 'Lfast', 'X']
        for n in (1, 2, 3) if ctx.thorough else (1, 2):
            hist += list(itertools.product(ops, repeat=n))
        for fp in fm:
            for dump in (0, 1):
                for save in (0, 1):
                    for h in hist:
                        inst = '%s fp=%s dump=%d save=%d after [%s]' % (cls, fp, dump, save, ' '.join(h))

                        def ircode(e):
                            return strval(it, w.call(NS + cls + '::GetIRCode', e))

                        def thunk():
                            chunk = 12345
                            opt = w.option(save=save, fp=fp, dump=dump)
                            opt.f['exec_ctx_arena_alloc_min_chunk_size'].v = chunk
                            e = Cell(w.new(cls, opt, pred=lambda d: True))
                            bad = []
                            for o in h:
                                if o == 'C':
                                    w.do_compile(e, cls, [w.stub('x', 'F64')])
                                elif o == 'F':
                                    w.orc.faults = {'verify'}
                                    w.do_compile(e, cls, [w.stub('x', 'F64')])
                                    w.orc.faults = set()
                                elif o == 'X':
                                    w.do_load(e, cls, 'JFCA')
                                else:
                                    r = w.do_load(e, cls, blobs['kStrict' if o == 'Lstrict' else 'kFast'])
                                    if r == 'OK' and ircode(e) != '':
                                        bad.append((fl, 'ir-text', 'GetIRCode is not empty after LoadCompiled'))
                            n0 = len(it.events)
                            if w.do_compile(e, cls, [w.stub('x', 'F64')]) != 'OK':
                                return [(fc, 'options', 'compile of a plain program fails')]
                            ev = it.events[n0:]
                            js = [x for x in ev if x['kind'] == 'jtmb']
                            if len(js) != 1:
                                bad.append((fj, 'options', '%d target machines built by one compile' % len(js)))
                            for x in js:
                                o = x['obj'].opts.v
                                for k, c in o.f.items():
                                    v = c.v
                                    if fp == 'kStrict' and (k not in STRICT or not STRICT[k](v)):
                                        bad.append((fj, 'strict-target', 'target option %s = %s in strict mode' % (k, v)))
                            pr = [x for x in ev if x['kind'] == 'print_ir']
                            runs = [i for i, x in enumerate(ev) if x['kind'] == 'llvmcall' and x['q'] == 'llvm::PassManager::run']
                            ir = ircode(e)
                            if dump:
                                mods = [m.mod for m in w.owned_jits(e)[-1].modules]
                                if len(pr) != 1 or ir != pr[0]['text'] or not any(pr[0]['mod'] is m for m in mods):
                                    bad.append((fi, 'ir-text', 'GetIRCode gives %r, not the text of the module just compiled' % (ir,)))
                                elif not runs or ev.index(pr[0]) < runs[-1]:
                                    bad.append((fi, 'ir-text', 'IR text is taken before the optimizer has run'))
                            elif ir != '':
                                bad.append((fi, 'ir-text', 'IR text captured although dump_ir is off'))
                            st, b = w.do_save(e, cls)
                            if (st == 'OK') != bool(save):
                                bad.append((fc, 'save', 'SaveCompiled gives %s with enable_save_compiled = %d' % (st, save)))
                            if st == 'OK':
                                st, hd, o = w.parse(b)
                                if st != 'OK' or hd.f['fp_math_mode'].v != fm[fp]:
                                    bad.append((fc, 'save', 'saved artifact does not name the engine\'s floating-point mode'))
                            s, calls, r = w.do_execute(e, cls, None if cls == 'ExecEngine' else 0)
                            for c in calls:
                                x = c['args'][1]
                                x = x.target().v if isinstance(x, Ptr) else None
                                found = []

                                def look(v, d):
                                    if isinstance(v, Obj) and d < 4:
                                        for y in v.f.values():
                                            look(y.v, d + 1)
                                    elif v == chunk and isinstance(v, int):
                                        found.append(v)
                                look(x, 0)
                                if not found:
                                    bad.append((fe, 'arena-chunk', 'internal context does not use exec_ctx_arena_alloc_min_chunk_size'))
                            if not calls:
                                bad.append((fe, 'arena-chunk', 'the program cannot be executed (%s)' % s))
                            return bad
                        for o in it.explore(thunk):
                            npaths += 1
                            mal = [x for x in o['events'] if x['kind'] in BADEV]
                            bad = list(o['ret']) if o['kind'] == 'ret' else [(fc, 'options', '%s %s' % (o['kind'], o.get('why')))]
                            if mal:
                                bad.append((fc, 'options', '%s %s' % (mal[0]['kind'], mal[0].get('what'))))
                            for rule in ('strict-target', 'ir-text', 'save', 'arena-chunk', 'options'):
                                b = [x for x in bad if x[1] == rule]
                                if rule == 'strict-target' and fp != 'kStrict':
                                    continue
                                ctx.ob(rule, inst, not b, (b[0][0].file, b[0][0].line) if b else None, b[0][2] if b else None)

    # the language front ends hand their options on unchanged
    for cls in ('AthenaExpression', 'AthenaPipeline'):
        q = 'athena::' + cls
        t = w.p.types.get(q)
        if t is None:
            raise Broken('no class ' + q)
        sent = {'exec_ctx_arena_alloc_min_chunk_size': 4321, 'dump_ir': 1, 'fp_math_mode': fm['kStrict'], 'enable_save_compiled': 1}

        def thunk():
            opt = w.option(save=1, fp='kStrict', dump=1)
            opt.f['exec_ctx_arena_alloc_min_chunk_size'].v = 4321
            o = w.new(q, opt, pred=lambda d: len(d.p) == 1 and d.p[0].strip().s.endswith('ExecEngineOption'))
            found = []
            seen = set()

            def look(v):
                if isinstance(v, Cell):
                    v = v.v
                if id(v) in seen:
                    return
                seen.add(id(v))
                if isinstance(v, Obj):
                    if v.cls is not None and v.cls.s == NS + 'ExecEngineOption':
                        found.append({k: c.v for k, c in v.f.items()})
                    for c in v.f.values():
                        look(c)
                elif isinstance(v, UPtr) and v.p is not None:
                    look(v.p)
                elif isinstance(v, Ptr) and v.cell is not None:
                    look(v.cell)
            look(o)
            return found
        for o in it.explore(thunk):
            ok = o['kind'] == 'ret' and o['ret'] and all(f.get(k) == v for f in o['ret'] for k, v in sent.items())
            c = [d for d in w.p.by_q.get(q + '::' + cls, [])]
            ctx.ob('front-end', cls, bool(ok), (c[0].file, c[0].line) if c else None, 'options reach the engine as %s' % (o.get('ret'),))
    ctx.stats.update(histories=npaths, functions_searched=nfn, functions=len(it.visited_funcs))
    ctx.need('no-relaxing-interface', 800)
    ctx.need('strict-target', 100)
    ctx.need('ir-text', 100)
    ctx.need('front-end', 2)
