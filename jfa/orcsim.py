"""Model of the JIT engine API (LLJIT creation, modules, symbols, transforms, Error/Expected) with a choice at every fallible step."""
from .interp import *
from .llvmsim import *
from .models import rv, strip_targs, key_of
from .prog import Broken


class H:
    """Opaque library object."""
    handle = 'self'

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def term(self):
        return (self.kind, id(self))

    def __repr__(self):
        return '<%s>' % self.kind


def unwrap(v):
    while True:
        if isinstance(v, Cell):
            v = v.v
        elif isinstance(v, UPtr):
            v = v.p
        elif isinstance(v, Ptr) and v.cell is not None:
            v = v.cell
        else:
            return v


class LErr(H):
    def __init__(self, failed, what):
        H.__init__(self, 'error', failed=failed, what=what)


class LExp(H):
    def __init__(self, cell, what):
        H.__init__(self, 'expected', cell=cell, what=what)


class LJit(H):
    """One LLJIT instance."""
    n = 0

    def __init__(self, builder):
        H.__init__(self, 'lljit', modules=[], objects=[], symbols={}, obj_transform=None, ir_transform=None,
                   generator=False, done=False, builder=builder)
        LJit.n += 1
        self.id = LJit.n


class LAddr(H):
    """Address of a symbol inside a JIT instance."""

    def __init__(self, jit, name, target=None):
        H.__init__(self, 'addr', jit=jit, name=name, target=target)

    def term(self):
        return ('addr', self.jit.id, self.name)

    def call(self, it, a, e):
        ft = e['callee']['t']
        return it.models.orc.on_call(it, self, ft, a, e)

    def __repr__(self):
        return '&%s@jit%d' % (self.name, self.jit.id)


class Orc:
    """Extra models; `faults` selects which fallible steps may fail (None = all)."""

    def __init__(self):
        self.faults = None
        self.on_call = None
        self.count = 0

    def fail(self, it, what):
        if self.faults is not None and what not in self.faults:
            return False
        if it.choose(2, ('fault', what)) == 1:
            it.event('fault', what=what)
            return True
        return False

    def err(self, it, what):
        return LErr(self.fail(it, what), what)

    def exp(self, it, v, what):
        return LExp(None if self.fail(it, what) else Cell(v), what)

    # ------------------------------------------------------------------
    def find(self, fd, q):
        if not q.startswith('llvm::'):
            return None
        s = q[6:]
        cls, _, name = s.rpartition('::')
        cls = cls.replace('orc::', '')
        if fd.dtor:
            return lambda it, fd, this, a, e: None
        h = getattr(self, 'X_%s_%s' % (cls.replace('::', '_'), name.replace('operator ', 'op_')), None)
        if h is None and name.startswith('operator'):
            nm = {'operator()': 'op_call', 'operator*': 'op_star', 'operator->': 'op_arrow', 'operator=': 'op_assign'}.get(name)
            if fd.conv:
                nm = 'op_bool'
            if nm:
                h = getattr(self, 'X_%s_%s' % (cls.replace('::', '_'), nm), None)
        if h is not None:
            return lambda it, fd, this, a, e: h(it, fd, rv(this) if this is not None else None, this, a)
        if cls.startswith('LLJITBuilderSetters') or cls == 'LLJITBuilder':
            return self.builder_call
        if not cls and name.startswith('Initialize'):
            return lambda it, fd, this, a, e: None
        if cls in OPAQUE:
            return self.opaque
        return None

    def opaque(self, it, fd, this, a, e):
        it.event('llvmcall', q=strip_targs(fd.q), this=rv(this) if this is not None else None, args=[rv(x) for x in a])
        rt = fd.r
        if rt is None or rt.k == 'void':
            return None
        if rt.k == 'ref':
            v = rv(this) if this is not None else None
            if isinstance(v, H):
                k = strip_targs(fd.q)
                sub = v.__dict__.setdefault('sub', {})
                if k not in sub:
                    sub[k] = H(k, parent=v)
                return Cell(sub[k])
            return Cell(H('opaque'))
        return H('opaque', q=fd.q)

    def default(self, it, ty, q):
        if q.startswith('llvm::') and q[6:].replace('orc::', '') in CONSTRUCT:
            return H(q[6:].replace('orc::', ''))
        if q == 'llvm::Error':
            return LErr(False, 'default')
        return NotImplemented

    def new(self, it, et, v, e, pl):
        return v if isinstance(v, H) else NotImplemented

    def binop(self, it, op, a, b, t):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, LAddr):
                if op == '+' and (y is None or y == 0):
                    return x
                if op in ('==', '!='):
                    return int((x is y) == (op == '=='))
        return NotImplemented

    def iterate(self, it, v, s):
        if isinstance(v, LFn):
            return [Cell(b) for b in v.blocks]
        if isinstance(v, LBB):
            return [Cell(i) for i in v.insts]
        return NotImplemented

    def make_unique(self, it, et, a, e):
        q = et.q or et.s
        if q.startswith('llvm::'):
            v = self.construct(it, et, strip_targs(q), None, a, e)
            if v is not NotImplemented:
                return UPtr(v)
        return NotImplemented

    def aggregate(self, it, ty, q, a, e):
        if q.startswith('llvm::') and q[6:].replace('orc::', '') in CONSTRUCT:
            return H(q[6:].replace('orc::', ''), args=[rv(x) for x in a])
        return NotImplemented

    def construct(self, it, ty, q, f, a, e):
        if not q.startswith('llvm::'):
            return NotImplemented
        s = q[6:].replace('orc::', '')
        if f is not None and (f.copyctor or f.movector) and a and isinstance(rv(a[0]), (H,)):
            return rv(a[0])
        if s == 'Expected':
            x = rv(a[0]) if a else None
            if isinstance(x, LErr):
                return LExp(None, x.what)
            if isinstance(x, LExp):
                return x
            if isinstance(a[0], Cell) and isinstance(x, UPtr):
                v = UPtr(x.p)
                a[0].v = UPtr(None)
                return LExp(Cell(v), 'value')
            return LExp(Cell(x), 'value')
        if s == 'Error':
            x = rv(a[0]) if a else None
            return x if isinstance(x, LErr) else LErr(False, 'ctor')
        if s == 'MangleAndInterner':
            return H('mangle', jit=getattr(rv(a[0]), 'parent', None), dl=getattr(rv(a[1]), 'parent', None))
        if s == 'ThreadSafeModule':
            mod = unwrap(a[0])
            c = unwrap(a[1]) if len(a) > 1 else None
            for x in a:
                if isinstance(x, Cell) and isinstance(x.v, UPtr):
                    x.v = UPtr(None)
            return H('tsm', mod=mod, ctx=c)
        if s == 'ThreadSafeContext':
            c = rv(a[0]) if a else None
            if a and isinstance(a[0], Cell) and isinstance(c, UPtr):
                a[0].v = UPtr(None)
            return H('tsc', ctx=c.p if isinstance(c, UPtr) else c)
        if s == 'ExecutorSymbolDef':
            return H('symdef', addr=rv(a[0]) if a else None, flags=rv(a[1]) if len(a) > 1 else None)
        if s == 'JITSymbolFlags':
            return H('flags', v=rv(a[0]) if a else None)
        if s == 'SymbolStringPtr':
            return rv(a[0]) if a else None
        if s == 'ExecutorAddr':
            return H('execaddr', ptr=rv(a[0]) if a else None)
        if s in CONSTRUCT:
            return H(s, args=[rv(x) for x in a])
        return NotImplemented

    def X_ExecutorSymbolDef_op_assign(self, it, fd, v, this, a):
        it.assign(this, a[0])
        return this

    X_ExecutorAddr_op_assign = X_JITSymbolFlags_op_assign = X_SymbolStringPtr_op_assign = X_ExecutorSymbolDef_op_assign

    # ---- Error / Expected ----
    def X_Error_op_bool(self, it, fd, v, this, a):
        return int(v.failed)

    def X_Error_success(self, it, fd, v, this, a):
        return LErr(False, 'success')

    def X_Expected_op_bool(self, it, fd, v, this, a):
        return int(v.cell is not None)

    def X_Expected_op_star(self, it, fd, v, this, a):
        if v.cell is None:
            it.event('malformed', what='value of a failed Expected')
            raise Abort('dereference of failed Expected')
        return v.cell

    X_Expected_get = X_Expected_op_star

    def X_Expected_op_arrow(self, it, fd, v, this, a):
        if v.cell is None:
            it.event('malformed', what='value of a failed Expected')
            raise Abort('dereference of failed Expected')
        return Ptr(v.cell)

    def X_Expected_takeError(self, it, fd, v, this, a):
        return LErr(v.cell is None, v.what)

    def X__toString(self, it, fd, v, this, a):
        return 'error:' + str(getattr(rv(a[0]), 'what', '?'))

    def X__consumeError(self, it, fd, v, this, a):
        return None

    # ---- construction ----
    def builder_call(self, it, fd, this, a, e):
        name = strip_targs(fd.q).rsplit('::', 1)[1]
        b = rv(this)
        if name == 'create':
            j = LJit(b)
            it.event('jit_create', jit=j)
            ef = self.exp(it, UPtr(j), 'create')
            if ef.cell is not None:
                f = b.__dict__.get('set', {}).get('setCompileFunctionCreator')
                if f is not None:
                    jtmb = H('JITTargetMachineBuilder', opts=Cell(Obj(None)))
                    it.event('jtmb', jit=j, obj=jtmb)
                    it.call_value(f, [Cell(jtmb)])
            return ef
        b.__dict__.setdefault('set', {})[name] = rv(a[0]) if a else None
        return this

    def X_JITTargetMachineBuilder_getOptions(self, it, fd, v, this, a):
        it.event('target_options', obj=v)
        return v.opts

    def X_JITTargetMachineBuilder_setCodeGenOptLevel(self, it, fd, v, this, a):
        return this

    # ---- jit ----
    def part(self, v, k):
        sub = v.__dict__.setdefault('sub', {})
        if k not in sub:
            sub[k] = H(k, parent=v)
        return Cell(sub[k])

    def X_LLJIT_getExecutionSession(self, it, fd, v, this, a):
        return self.part(v, 'session')

    def X_LLJIT_getDataLayout(self, it, fd, v, this, a):
        return self.part(v, 'datalayout')

    def X_LLJIT_getMainJITDylib(self, it, fd, v, this, a):
        return self.part(v, 'dylib')

    def X_LLJIT_getObjTransformLayer(self, it, fd, v, this, a):
        return self.part(v, 'objlayer')

    def X_LLJIT_getIRTransformLayer(self, it, fd, v, this, a):
        return self.part(v, 'irlayer')

    def X_DataLayout_getGlobalPrefix(self, it, fd, v, this, a):
        return 0

    def X_DynamicLibrarySearchGenerator_GetForCurrentProcess(self, it, fd, v, this, a):
        return self.exp(it, UPtr(H('generator')), 'generator')

    def X_JITDylib_addGenerator(self, it, fd, v, this, a):
        v.parent.generator = True
        return Cell(H('opaque'))

    def X_ObjectTransformLayer_setTransform(self, it, fd, v, this, a):
        v.parent.obj_transform = rv(a[0])
        return None

    def X_IRTransformLayer_setTransform(self, it, fd, v, this, a):
        v.parent.ir_transform = rv(a[0])
        return None

    def X_MangleAndInterner_op_call(self, it, fd, v, this, a):
        return rv(a[0])

    def X_ExecutorAddr_fromPtr(self, it, fd, v, this, a):
        return H('execaddr', ptr=rv(a[0]))

    def X_ExecutorAddr_getValue(self, it, fd, v, this, a):
        return v

    def X_ExecutorAddr_toPtr(self, it, fd, v, this, a):
        return v

    def X_orc_absoluteSymbols(self, it, fd, v, this, a):
        return UPtr(H('absolute', map=it.copy(rv(a[0]))))

    X__absoluteSymbols = X_orc_absoluteSymbols

    def X_JITDylib_define(self, it, fd, v, this, a):
        x = rv(a[0])
        x = x.p if isinstance(x, UPtr) else x
        if isinstance(x, Ptr):
            x = x.target().v
        e = self.err(it, 'define')
        if not e.failed:
            for k, stored in x.map.k.items():
                c = x.map.d[k].v
                c = c.f['second'].v if isinstance(c, Obj) else c
                if stored in v.parent.symbols:
                    e.failed = True
                v.parent.symbols[stored] = c
        it.event('define', jit=v.parent, ok=not e.failed)
        return e

    def X_LLJIT_addIRModule(self, it, fd, v, this, a):
        e = self.err(it, 'addIRModule')
        if not e.failed:
            v.modules.append(rv(a[-1]))
        it.event('addIRModule', jit=v, mod=rv(a[-1]))
        return e

    def X_LLJIT_addObjectFile(self, it, fd, v, this, a):
        x = rv(a[-1])
        x = x.p if isinstance(x, UPtr) else x
        if isinstance(x, Ptr):
            x = x.target().v
        if isinstance(a[-1], Cell):
            a[-1].v = UPtr(None)
        e = self.err(it, 'addObjectFile')
        if not e.failed:
            v.objects.append(x)
        it.event('addObjectFile', jit=v, buf=x)
        return e

    def X_LLJIT_lookup(self, it, fd, v, this, a):
        name = rv(a[-1])
        it.event('lookup_symbol', jit=v, name=name)
        if not v.done:
            self.materialise(it, v)
        # symbols the module declares but nobody defines make materialisation fail
        known = any(isinstance(m.mod, LMod) and name in m.mod.fns and m.mod.fns[name].blocks for m in v.modules) or \
            any(name in getattr(o, 'syms', ()) for o in v.objects)
        if v.objects and not any(hasattr(o, 'syms') for o in v.objects):
            known = True
        if not known:
            return LExp(None, 'lookup')
        return self.exp(it, LAddr(v, name), 'lookup')

    X_LLJIT_lookupLinkerMangled = X_LLJIT_lookup

    def materialise(self, it, v):
        v.done = True
        for m in v.modules:
            if v.ir_transform is not None:
                r = it.call_value(v.ir_transform, [Cell(m), Cell(H('MaterializationResponsibility'))])
                r = rv(r)
                if isinstance(r, LExp):
                    r = r.cell.v if r.cell is not None else None
                it.event('transformed', jit=v, same=r is m)
            self.count += 1
            buf = H('membuf', text='OBJ%d' % v.id, syms=set(m.mod.fns) if isinstance(m.mod, LMod) else set())
            if v.obj_transform is not None:
                r = rv(it.call_value(v.obj_transform, [Cell(UPtr(buf))]))
                if isinstance(r, LExp):
                    r = r.cell.v if r.cell is not None else None
                r = r.p if isinstance(r, UPtr) else r
                it.event('obj_transformed', jit=v, same=r is buf)

    def X_ThreadSafeModule_withModuleDo(self, it, fd, v, this, a):
        it.event('module_do', tsm=v)
        return it.call_value(a[0], [Cell(v.mod)])

    def X_ThreadSafeModule_getModuleUnlocked(self, it, fd, v, this, a):
        return v.mod

    def X_MemoryBuffer_getBuffer(self, it, fd, v, this, a):
        return v.text

    def X_MemoryBuffer_getBufferSize(self, it, fd, v, this, a):
        return len(v.text)

    def X_MemoryBuffer_getBufferStart(self, it, fd, v, this, a):
        return it.models.str_data(it, fd, Cell(v.text), [], None)

    def X_MemoryBuffer_getMemBufferCopy(self, it, fd, v, this, a):
        return UPtr(H('membuf', text=rv(a[0]), copied=True))

    def X_MemoryBuffer_getMemBuffer(self, it, fd, v, this, a):
        return UPtr(H('membuf', text=rv(a[0]), copied=False))

    def X__verifyModule(self, it, fd, v, this, a):
        it.event('verify', mod=rv(a[0]))
        return int(self.fail(it, 'verify'))

    def X__verifyFunction(self, it, fd, v, this, a):
        return int(self.fail(it, 'verify'))

    def X_Module_print(self, it, fd, v, this, a):
        self.irtexts = getattr(self, 'irtexts', {})
        t = self.irtexts.setdefault(id(v), ('IR%d;' % len(self.irtexts), v))[0]
        it.event('print_ir', mod=v, text=t)
        it.models.stream_add(it, rv(a[0]), t)
        return None

    def X_PassBuilder_registerPeepholeEPCallback(self, it, fd, v, this, a):
        fpm = H('FunctionPassManager', passes=[])
        it.call_value(a[0], [Cell(fpm), Cell(H('OptimizationLevel'))])
        it.event('peephole', passes=list(fpm.passes))
        return None

    def X_PassManager_addPass(self, it, fd, v, this, a):
        it.event('add_pass', p=rv(a[0]))
        if hasattr(v, 'passes'):
            v.passes.append(rv(a[0]))
        return None

    def X_sys_getProcessTriple(self, it, fd, v, this, a):
        return 'triple'

    def X_sys_getDefaultTargetTriple(self, it, fd, v, this, a):
        return 'default-triple'

    def X_sys_getHostCPUName(self, it, fd, v, this, a):
        return 'cpu'

    def X_sys_DynamicLibrary_LoadLibraryPermanently(self, it, fd, v, this, a):
        return 0


CONSTRUCT = {'LLJITBuilder', 'PassBuilder', 'LoopAnalysisManager', 'FunctionAnalysisManager', 'CGSCCAnalysisManager',
             'ModuleAnalysisManager', 'AnalysisManager', 'PassManager', 'JITTargetMachineBuilder', 'ConcurrentIRCompiler', 'SimpleCompiler',
             'TMOwningSimpleCompiler', 'OptimizationLevel', 'PipelineTuningOptions', 'PassInstrumentationCallbacks', 'FunctionPassManager',
             'ModulePassManager', 'LoopPassManager', 'TargetOptions', 'IntrusiveRefCntPtr', 'identity', 'identity_cxx20', 'ExecutorAddr::rawPtr', 'ExecutorAddr::Untag', 'rawPtr'}
OPAQUE = {'PassBuilder', 'PassManager', 'AnalysisManager', 'LoopAnalysisManager', 'FunctionAnalysisManager', 'JITTargetMachineBuilder',
          'LLJIT', 'ExecutionSession', 'JITDylib', 'PreservedAnalyses', 'TargetOptions', 'IntrusiveRefCntPtr', 'identity', 'identity_cxx20', 'ExecutorAddr::rawPtr', 'ExecutorAddr::Untag', 'rawPtr'}
