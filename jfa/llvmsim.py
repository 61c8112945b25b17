"""Abstract model of the LLVM IR construction API: instructions become terms over opaque operands.

Nothing is compiled or run; constructing "IR" only records which instruction the source asks for, with types checked.
"""
import os
import re

from .interp import *
from .interp import charval
from .models import rv, strip_targs
from .prog import Broken

INTR_INC = '/usr/lib/llvm-19/include/llvm/IR/IntrinsicEnums.inc'


class LT:
    handle = 'self'
    __slots__ = ('k', 'bits', 'elts', 'name', 'n', 'ret', 'va')
    pool = {}

    def __init__(self, k, bits=0, elts=(), name=None, n=0, ret=None, va=False):
        self.k = k
        self.bits = bits
        self.elts = elts
        self.name = name
        self.n = n
        self.ret = ret
        self.va = va

    def term(self):
        return ('ty', str(self))

    def __str__(self):
        if self.k == 'int':
            return 'i%d' % self.bits
        if self.k in ('float', 'double', 'void', 'ptr', 'label', 'half', 'metadata'):
            return self.k
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(str, self.elts))
        if self.k == 'array':
            return '[%s x %s]' % (self.n, self.elts[0])
        if self.k == 'fn':
            return '%s (%s%s)' % (self.ret, ', '.join(map(str, self.elts)), ', ...' if self.va else '')
        if self.k == 'vec':
            return '<%s x %s>' % (self.n, self.elts[0])
        return self.k

    __repr__ = __str__

    def key(self):
        return str(self)

    def __eq__(self, o):
        return isinstance(o, LT) and str(self) == str(o)

    def __hash__(self):
        return hash(str(self))


def mk(k, **kw):
    t = LT(k, **kw)
    s = str(t)
    return LT.pool.setdefault(s, t)


def tint(n):
    return mk('int', bits=n)


PTR = mk('ptr')
VOID = mk('void')
FLOAT = mk('float')
DOUBLE = mk('double')
LABEL = mk('label')


def named(s):
    """Parse a scalar type name."""
    if s[0] == 'i' and s[1:].isdigit():
        return tint(int(s[1:]))
    return mk(s)


class LV:
    """An IR value."""
    handle = 'self'
    n = 0

    def __init__(self, op, args, ty, **kw):
        self.op = op
        self.args = list(args)
        self.ty = ty
        self.kw = kw
        self.name = ''
        self.bb = None
        self.attrs = set()
        LV.n += 1
        self.id = LV.n
        self.loc = None

    def term(self):
        return ('lv', self.id)

    def const(self):
        return self.op in ('const', 'undef', 'poison', 'nullptr', 'conststruct', 'constarray', 'global', 'fn', 'constgep',
                           'constdata', 'constexpr')

    def __repr__(self):
        if self.op == 'const':
            return '%s %s' % (self.ty, self.kw.get('v'))
        return '%%%d=%s%s' % (self.id, self.op, self.ty)

    __str__ = __repr__


class LBB:
    handle = 'self'

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.insts = []
        if fn is not None:
            fn.blocks.append(self)

    def term(self):
        return ('bb', id(self))

    @property
    def ended(self):
        return bool(self.insts) and self.insts[-1].op in ('br', 'condbr', 'ret', 'switch', 'unreachable')

    def __repr__(self):
        return 'bb:%s' % self.name


class LFn(LV):
    def __init__(self, name, fty, mod):
        super().__init__('fn', [], PTR)
        self.name = name
        self.fty = fty
        self.mod = mod
        self.blocks = []
        self.params = [LV('arg', [], t, i=i, fn=name) for i, t in enumerate(fty.elts)]
        self.intrinsic = None
        self.pattrs = []

    def __repr__(self):
        return '@%s' % self.name


class LGlobal(LV):
    def __init__(self, mod, vt, const, linkage, init, name):
        super().__init__('global', [], PTR)
        self.mod = mod
        self.vt = vt
        self.isconst = const
        self.linkage = linkage
        self.init = init
        self.name = name
        self.align = None


class LMod:
    handle = 'self'

    def __init__(self, ctx):
        self.ctx = ctx
        self.fns = {}
        self.globals = []

    def term(self):
        return ('module', id(self))


class LCtx:
    handle = 'self'

    def term(self):
        return ('llvmctx', id(self))


class LBuilder:
    handle = 'self'

    def __init__(self, bb=None):
        self.bb = bb
        self.fmf = None

    def term(self):
        return ('builder', id(self))


def intrinsics():
    r = {}
    n = 0
    for l in open(INTR_INC):
        m = re.match(r'\s*(\w+)(?:\s*=\s*(\d+))?,\s*//\s*(\S+)', l)
        if m:
            if m.group(2):
                n = int(m.group(2))
            r[n] = m.group(3)
            n += 1
    return r


def attr_kinds():
    r = {}
    for l in open(os.path.join(os.path.dirname(INTR_INC), 'Attributes.inc')):
        m = re.match(r'\s*(\w+)\s*=\s*(\d+),', l)
        if m:
            r[m.group(1)] = int(m.group(2))
    if 'ReadOnly' not in r or 'NoAlias' not in r:
        raise Broken('attribute kinds not found')
    return r


_INTR = None


def intr_name(i):
    global _INTR
    if _INTR is None:
        _INTR = intrinsics()
        if _INTR.get(0) is None and not _INTR:
            raise Broken('cannot read the intrinsic table')
    return _INTR.get(i)


OVER1 = {'llvm.powi', 'llvm.abs', 'llvm.fabs', 'llvm.sqrt', 'llvm.exp', 'llvm.exp2', 'llvm.log', 'llvm.log2', 'llvm.log10', 'llvm.sin',
         'llvm.cos', 'llvm.tan', 'llvm.ceil', 'llvm.floor', 'llvm.round', 'llvm.trunc', 'llvm.pow', 'llvm.rint',
         'llvm.nearbyint', 'llvm.minnum', 'llvm.maxnum', 'llvm.minimum', 'llvm.maximum', 'llvm.smax', 'llvm.smin',
         'llvm.umax', 'llvm.umin', 'llvm.roundeven', 'llvm.copysign', 'llvm.fma', 'llvm.canonicalize', 'llvm.exp10',
         'llvm.asin', 'llvm.acos', 'llvm.atan', 'llvm.sinh', 'llvm.cosh', 'llvm.tanh', 'llvm.ctpop', 'llvm.bswap', 'llvm.bitreverse'}

FPRED = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt',
         11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}

BINI = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'SDiv': 'sdiv', 'UDiv': 'udiv', 'SRem': 'srem', 'URem': 'urem',
        'And': 'and', 'Or': 'or', 'Xor': 'xor', 'Shl': 'shl', 'LShr': 'lshr', 'AShr': 'ashr',
        'NSWAdd': 'add nsw', 'NSWSub': 'sub nsw', 'NSWMul': 'mul nsw', 'NUWAdd': 'add nuw', 'NUWSub': 'sub nuw',
        'NUWMul': 'mul nuw', 'ExactSDiv': 'sdiv exact', 'ExactUDiv': 'udiv exact', 'FAdd': 'fadd', 'FSub': 'fsub',
        'FMul': 'fmul', 'FDiv': 'fdiv', 'FRem': 'frem'}
CASTS = {'ZExt': 'zext', 'SExt': 'sext', 'Trunc': 'trunc', 'FPExt': 'fpext', 'FPTrunc': 'fptrunc', 'SIToFP': 'sitofp',
         'UIToFP': 'uitofp', 'FPToSI': 'fptosi', 'FPToUI': 'fptoui', 'PtrToInt': 'ptrtoint', 'IntToPtr': 'inttoptr',
         'BitCast': 'bitcast'}


class LLVM:
    """Models extra: the subset of LLVM's construction API a code generator can use."""

    def __init__(self):
        self.count = 0

    # ---------------- plumbing ----------------
    def find(self, fd, q):
        if not q.startswith('llvm::') and not q.startswith('std::'):
            return None
        cls, _, name = q.rpartition('::')
        short = cls.replace('llvm::', '')
        if short in ('IRBuilderBase', 'IRBuilder'):
            if fd.dtor:
                return lambda it, fd, this, a, e: None
            h = getattr(self, 'B_' + name, None)
            if h is not None:
                return h
            if name.startswith('Create'):
                return lambda it, fd, this, a, e: self.create(it, name[6:], rv(this), a, fd)
            m = re.match(r'getInt(\d+)Ty$', name)
            if m:
                return lambda it, fd, this, a, e, n=int(m.group(1)): tint(n)
            m = re.match(r'getInt(\d+)$', name)
            if m:
                return lambda it, fd, this, a, e, n=int(m.group(1)): self.cint(it, tint(n), rv(a[0]))
            return None
        if short in ('Type', 'IntegerType', 'PointerType', 'StructType', 'ArrayType', 'FunctionType', 'SequentialType',
                     'VectorType', 'FixedVectorType'):
            m = re.match(r'getInt(\d+)Ty$', name)
            if m:
                return lambda it, fd, this, a, e, n=int(m.group(1)): tint(n)
            m = re.match(r'isIntegerTy$', name)
            h = getattr(self, 'T_' + name, None)
            if h is not None:
                return lambda it, fd, this, a, e: h(it, short, rv(this) if this is not None else None, a, fd)
            return None
        if short in ('Value', 'User', 'Instruction', 'Constant', 'GlobalValue', 'GlobalObject', 'GlobalVariable', 'Function',
                     'Argument', 'PHINode', 'BasicBlock', 'CallInst', 'CallBase', 'Module', 'ConstantInt', 'ConstantFP',
                     'ConstantPointerNull', 'ConstantStruct', 'ConstantArray', 'ConstantDataArray', 'ConstantExpr',
                     'UndefValue', 'PoisonValue', 'FunctionCallee', 'Attribute', 'Intrinsic', 'AllocaInst', 'StoreInst',
                     'LoadInst', 'BranchInst', 'SelectInst', 'ConstantAggregateZero', 'ConstantDataSequential', 'ConstantDataVector',
                     'SwitchInst', 'ReturnInst', 'UnreachableInst', 'ConstantAggregate', 'ConstantData'):
            pre = {'Function': ('F', 'G', 'V'), 'GlobalVariable': ('G', 'V'), 'GlobalObject': ('G', 'V'), 'GlobalValue': ('G', 'V'),
                   'PHINode': ('P', 'V'), 'BasicBlock': ('BB', 'V'), 'Module': ('M',), 'Attribute': ('A',),
                   'FunctionCallee': ('FC',), 'Intrinsic': ('I',), 'Argument': ('V',), 'CallInst': ('CI', 'V'), 'CallBase': ('CI', 'V'), 'SwitchInst': ('S', 'V'),
                   }.get(short, ('C', 'V') if 'Const' in short or 'Undef' in short or 'Poison' in short else ('V',))
            if name.startswith('operator='):
                return lambda it, fd, this, a, e: (it.assign(this, a[0]), this)[1]
            if name == 'Create' and short in ('BranchInst', 'ReturnInst', 'PHINode', 'SelectInst'):
                return lambda it, fd, this, a, e: self.create_at(it, short, a, fd)
            for p in pre:
                h = getattr(self, p + '_' + name, None)
                if h is not None:
                    if p in ('C',):
                        return lambda it, fd, this, a, e, h=h: h(it, short, rv(this) if this is not None else None, a, fd)
                    return lambda it, fd, this, a, e, h=h: h(it, rv(this) if this is not None else None, a, fd)
            if fd.dtor:
                return lambda it, fd, this, a, e: None
            return None
        if q in ('llvm::cast', 'llvm::dyn_cast', 'llvm::cast_or_null', 'llvm::dyn_cast_or_null', 'llvm::isa', 'llvm::cast_if_present',
                 'llvm::dyn_cast_if_present'):
            return self.casting
        if short == 'PreservedAnalyses':
            return lambda it, fd, this, a, e: Sym(('pa', name))
        if short == 'MemoryEffectsBase':
            k = {'none': 'readnone', 'readOnly': 'readonly', 'writeOnly': 'writeonly', 'argMemOnly': 'argmemonly',
                 'inaccessibleMemOnly': 'inaccessible', 'inaccessibleOrArgMemOnly': 'inaccessibleorarg', 'unknown': 'unknown'}.get(name)
            if k is not None and fd.static:
                return lambda it, fd, this, a, e: ('effects', k if not a else k + ' ' + str(rv(a[0])))
        if short == 'GEPNoWrapFlags':
            return lambda it, fd, this, a, e: None
        if short == 'Align':
            return lambda it, fd, this, a, e: None
        return None

    def default(self, it, ty, q):
        if q in ('llvm::FunctionCallee',):
            return None
        if q in ('llvm::Twine', 'llvm::FMFSource'):
            return ''
        return NotImplemented

    def new(self, it, et, v, e, pl):
        if hasattr(v, 'handle'):
            return v
        return NotImplemented

    def binop(self, it, op, a, b, t):
        if hasattr(a, 'handle') and hasattr(b, 'handle') and op in ('==', '!='):
            r = (a == b) if isinstance(a, LT) else (a is b)
            return int(r if op == '==' else not r)
        if isinstance(a, LV) and isinstance(b, LV) and op in ('<', '>', '<=', '>='):
            return int({'<': a.id < b.id, '>': a.id > b.id, '<=': a.id <= b.id, '>=': a.id >= b.id}[op])
        if (hasattr(a, 'handle') and b is None) or (hasattr(b, 'handle') and a is None):
            return int(op == '!=')
        return NotImplemented

    def iterate(self, it, v, s):
        if isinstance(v, LFn):
            return list(v.blocks)
        if isinstance(v, LBB):
            return list(v.insts)
        return NotImplemented

    def make_unique(self, it, et, a, e):
        q = et.q or et.s
        if q.startswith('llvm::'):
            v = self.construct(it, et, strip_targs(q), None, a, e)
            if v is not NotImplemented:
                return UPtr(v)
        return NotImplemented

    def aggregate(self, it, ty, q, a, e):
        if q == 'llvm::Align':
            return rv(a[0]) if a else None
        return NotImplemented

    def construct(self, it, ty, q, f, a, e):
        if not q.startswith('llvm::'):
            return NotImplemented
        s = q[6:]
        if s == 'Twine':
            if f is not None and (f.copyctor or f.movector):
                return rv(a[0])
            xs = [rv(x) for x in a]
            if len(xs) == 1 and isinstance(xs[0], str):
                return xs[0]
            return ''
        if s == 'IRBuilder':
            x = rv(a[0]) if a else None
            return LBuilder(x if isinstance(x, LBB) else None)
        if s == 'LLVMContext':
            return LCtx()
        if s == 'Module':
            return LMod(rv(a[1]) if len(a) > 1 else None)
        if s == 'FunctionCallee':
            xs = [rv(x) for x in a]
            for x in reversed(xs):
                if isinstance(x, LFn):
                    return x
            return None
        if s in ('Align', 'MaybeAlign'):
            return rv(a[0]) if a else None
        if s == 'GlobalVariable':
            xs = [rv(x) for x in a]
            if xs and isinstance(xs[0], LMod):
                g = LGlobal(xs[0], xs[1], xs[2], xs[3], xs[4] if len(xs) > 4 else None, xs[5] if len(xs) > 5 else '')
                xs[0].globals.append(g)
                return g
            g = LGlobal(None, xs[0], xs[1], xs[2], xs[3] if len(xs) > 3 else None, xs[4] if len(xs) > 4 else '')
            return g
        if s == 'InsertPosition':
            return rv(a[0]) if a else None
        if s == 'APInt':
            xs = [rv(x) for x in a]
            if len(xs) >= 2 and isinstance(xs[0], int):
                return ('apint', xs[0], xs[1])
            if len(xs) == 1 and isinstance(xs[0], tuple):
                return xs[0]
            return NotImplemented
        if s == 'APFloat':
            x = rv(a[0]) if len(a) == 1 else None
            if isinstance(x, tuple) and x and x[0] == 'apfloat':
                return x
            if f is not None and f.p and f.p[0].s in ('float', 'double'):
                return ('apfloat', f.p[0].s, x)
            return NotImplemented
        if s in ('FMFSource', 'OperandBundleDef', 'OperandBundleDefT'):
            return None
        if s in ('TypeSize',):
            return rv(a[0])
        return NotImplemented

    def casting(self, it, fd, this, a, e):
        x = rv(a[0])
        name = fd.q.split('<')[0].split('::')[-1]
        want = None
        if fd.ta:
            for t in fd.ta:
                if t[0] == 't':
                    want = (t[1].q or t[1].s).replace('llvm::', '').replace('const ', '')
                    break
                if t[0] == 'p' and t[1] and t[1][0][0] == 't':
                    want = (t[1][0][1].q or t[1][0][1].s).replace('llvm::', '').replace('const ', '')
                    break
        ok = self.isa(x, want)
        if name == 'isa':
            return int(bool(ok))
        if x is None:
            return None
        if ok is None:
            raise Broken('cast to %s at %s' % (want, it.where()))
        if not ok:
            if name.startswith('cast'):
                it.event('malformed', what='bad cast<%s>' % want)
                raise Abort('bad cast')
            return None
        if isinstance(a[0], Cell) and fd.r is not None and fd.r.k == 'ref':
            return a[0]
        return x

    def isa(self, x, want):
        if isinstance(x, LFn):
            return want in ('Function', 'GlobalValue', 'GlobalObject', 'Constant', 'Value')
        if isinstance(x, LGlobal):
            return want in ('GlobalVariable', 'GlobalValue', 'GlobalObject', 'Constant', 'Value')
        if isinstance(x, LT):
            m = {'int': 'IntegerType', 'struct': 'StructType', 'array': 'ArrayType', 'ptr': 'PointerType', 'fn': 'FunctionType'}
            return want == m.get(x.k) or want == 'Type'
        if isinstance(x, LV):
            if want in ('Value', 'User'):
                return True
            if want == 'Constant':
                return x.const()
            if want == 'ConstantInt':
                return x.op == 'const' and x.ty.k == 'int'
            if want == 'ConstantFP':
                return x.op == 'const' and x.ty.k in ('float', 'double')
            if want == 'Instruction':
                return x.bb is not None
            if want in ('CallInst', 'CallBase'):
                return x.op == 'call'
            if want == 'PHINode':
                return x.op == 'phi'
            if want == 'Argument':
                return x.op == 'arg'
        return None

    # ---------------- helpers ----------------
    def bad(self, it, what):
        it.event('malformed', what=what)

    def emit(self, it, b, v):
        if not isinstance(b, LBuilder):
            raise Broken('builder is %r' % (b,))
        if b.bb is None:
            self.bad(it, 'instruction created with no insert point')
            raise Abort('no insert point')
        if b.bb.ended:
            self.bad(it, 'instruction %s after the terminator of block %s' % (v.op, b.bb.name))
        v.bb = b.bb
        v.loc = it.loc()
        b.bb.insts.append(v)
        self.count += 1
        return v

    def cint(self, it, ty, v, signed=None):
        if isinstance(v, Sym):
            return LV('const', [], ty, v=('sym', v.t))
        m = 1 << ty.bits
        return LV('const', [], ty, v=v % m)

    def seq(self, it, x):
        """List of values of an ArrayRef / vector / initializer list argument."""
        x = rv(x)
        if isinstance(x, Vec):
            return [c.v for c in x.c]
        if x is None:
            return []
        if isinstance(x, (LV, LT)):
            return [x]
        raise Broken('value list %r at %s' % (x, it.where()))

    def same(self, it, a, b, what):
        if not (isinstance(a, LV) and isinstance(b, LV)):
            self.bad(it, '%s of %r and %r' % (what, a, b))
            raise Abort('operand is not a value')
        if a.ty != b.ty:
            self.bad(it, '%s operand types differ: %s vs %s' % (what, a.ty, b.ty))
            return False
        return True

    def val(self, it, x, what):
        x = rv(x)
        if not isinstance(x, LV):
            self.bad(it, '%s: operand is %s' % (what, 'null' if x is None else repr(x)))
            raise Abort('%s operand is not a value' % what)
        return x

    # ---------------- types ----------------
    def T_getVoidTy(self, it, cls, t, a, fd):
        return VOID

    def T_getFloatTy(self, it, cls, t, a, fd):
        return FLOAT

    def T_getDoubleTy(self, it, cls, t, a, fd):
        return DOUBLE

    def T_getIntNTy(self, it, cls, t, a, fd):
        return tint(rv(a[1]))

    def T_getUnqual(self, it, cls, t, a, fd):
        return PTR

    def T_getInt8PtrTy(self, it, cls, t, a, fd):
        return PTR

    def T_getPtrTy(self, it, cls, t, a, fd):
        return PTR

    def T_get(self, it, cls, t, a, fd):
        xs = [rv(x) for x in a]
        if cls == 'IntegerType':
            n = xs[1]
            if isinstance(n, Sym) or not isinstance(n, int) or n <= 0:
                self.bad(it, 'integer type of width %r' % (n,))
                raise Abort('bad integer width')
            return tint(n)
        if cls == 'PointerType':
            return PTR
        if cls == 'FunctionType':
            ps = self.seq(it, a[1]) if len(a) > 1 and not isinstance(xs[1], (int, bool)) else []
            va = xs[-1] if isinstance(xs[-1], (int, bool)) else 0
            return mk('fn', ret=xs[0], elts=tuple(ps), va=bool(va))
        if cls == 'ArrayType':
            return mk('array', elts=(xs[0],), n=xs[1] if isinstance(xs[1], int) else repr(xs[1]))
        if cls == 'StructType':
            es = []
            for x in xs:
                if isinstance(x, Vec):
                    es += [c.v for c in x.c]
                elif isinstance(x, LT):
                    es.append(x)
            return mk('struct', elts=tuple(es))
        if cls in ('VectorType', 'FixedVectorType'):
            return mk('vec', elts=(xs[0],), n=xs[1])
        raise Broken('type %s::get' % cls)

    def T_create(self, it, cls, t, a, fd):
        xs = [rv(x) for x in a]
        es = []
        for x in xs:
            if isinstance(x, Vec):
                es += [c.v for c in x.c]
            elif isinstance(x, LT):
                es.append(x)
        return mk('struct', elts=tuple(es))

    def T_isIntegerTy(self, it, cls, t, a, fd):
        if a:
            return int(t.k == 'int' and t.bits == rv(a[0]))
        return int(t.k == 'int')

    def T_isFloatingPointTy(self, it, cls, t, a, fd):
        return int(t.k in ('float', 'double', 'half'))

    def T_isFloatTy(self, it, cls, t, a, fd):
        return int(t.k == 'float')

    def T_isDoubleTy(self, it, cls, t, a, fd):
        return int(t.k == 'double')

    def T_isPointerTy(self, it, cls, t, a, fd):
        return int(t.k == 'ptr')

    def T_isVoidTy(self, it, cls, t, a, fd):
        return int(t.k == 'void')

    def T_isStructTy(self, it, cls, t, a, fd):
        return int(t.k == 'struct')

    def T_isArrayTy(self, it, cls, t, a, fd):
        return int(t.k == 'array')

    def T_isAggregateType(self, it, cls, t, a, fd):
        return int(t.k in ('array', 'struct'))

    def T_getIntegerBitWidth(self, it, cls, t, a, fd):
        return t.bits

    def T_getBitWidth(self, it, cls, t, a, fd):
        return t.bits

    def T_getPrimitiveSizeInBits(self, it, cls, t, a, fd):
        return {'int': t.bits, 'float': 32, 'double': 64}.get(t.k, 0)

    def T_getScalarSizeInBits(self, it, cls, t, a, fd):
        return {'int': t.bits, 'float': 32, 'double': 64}.get(t.k, 0)

    def T_getScalarType(self, it, cls, t, a, fd):
        return t

    def T_getNumElements(self, it, cls, t, a, fd):
        return len(t.elts) if t.k == 'struct' else t.n

    def T_getStructNumElements(self, it, cls, t, a, fd):
        return len(t.elts)

    def T_getElementType(self, it, cls, t, a, fd):
        return t.elts[rv(a[0])] if t.k == 'struct' else t.elts[0]

    def T_getStructElementType(self, it, cls, t, a, fd):
        return t.elts[rv(a[0])]

    def T_getReturnType(self, it, cls, t, a, fd):
        return t.ret

    def T_getParamType(self, it, cls, t, a, fd):
        return t.elts[rv(a[0])]

    def T_getNumParams(self, it, cls, t, a, fd):
        return len(t.elts)

    def T_getContext(self, it, cls, t, a, fd):
        return Cell(LCtx())

    def T_getTypeID(self, it, cls, t, a, fd):
        return {'float': 2, 'double': 3, 'void': 7, 'int': 12, 'fn': 13, 'ptr': 14, 'struct': 15, 'array': 16}.get(t.k, 99)

    def T_isSized(self, it, cls, t, a, fd):
        return int(t.k not in ('void', 'fn'))

    # ---------------- values ----------------
    def V_getType(self, it, v, a, fd):
        if isinstance(v, LV):
            return v.ty
        self.bad(it, 'getType() of %r' % (v,))
        raise Abort('getType of a null value')

    def V_setName(self, it, v, a, fd):
        return None

    def V_getName(self, it, v, a, fd):
        return v.name

    def V_getContext(self, it, v, a, fd):
        return Cell(LCtx())

    def V_getParent(self, it, v, a, fd):
        return v.bb if isinstance(v, LV) else v.fn

    def V_getTerminator(self, it, v, a, fd):
        return v.insts[-1] if v.ended else None

    def V_replaceAllUsesWith(self, it, v, a, fd):
        raise Broken('replaceAllUsesWith')

    def V_getOperand(self, it, v, a, fd):
        return v.args[rv(a[0])]

    def P_addIncoming(self, it, v, a, fd):
        x = self.val(it, a[0], 'phi incoming')
        bb = rv(a[1])
        if x.ty != v.ty:
            self.bad(it, 'phi of %s gets an incoming value of %s' % (v.ty, x.ty))
        v.args.append((x, bb))
        return None

    def P_getNumIncomingValues(self, it, v, a, fd):
        return len(v.args)

    def P_getIncomingValue(self, it, v, a, fd):
        return v.args[rv(a[0])][0]

    def P_getIncomingBlock(self, it, v, a, fd):
        return v.args[rv(a[0])][1]

    def BB_Create(self, it, v, a, fd):
        xs = [rv(x) for x in a]
        fn = next((x for x in xs if isinstance(x, LFn)), None)
        name = next((x for x in xs if isinstance(x, str)), '')
        b = LBB(name, fn)
        return b

    def BB_getTerminator(self, it, v, a, fd):
        return v.insts[-1] if v.ended else None

    def BB_getParent(self, it, v, a, fd):
        return v.fn

    def BB_insertInto(self, it, v, a, fd):
        f = rv(a[0])
        v.fn = f
        if v not in f.blocks:
            f.blocks.append(v)
        return None

    def BB_empty(self, it, v, a, fd):
        return int(not v.insts)

    def BB_moveAfter(self, it, v, a, fd):
        return None

    BB_moveBefore = BB_moveAfter

    def CI_setTailCall(self, it, v, a, fd):
        return None

    def CI_setDoesNotThrow(self, it, v, a, fd):
        return None

    def CI_getCalledFunction(self, it, v, a, fd):
        return v.kw['fn']

    def CI_getArgOperand(self, it, v, a, fd):
        return v.args[rv(a[0])]

    def CI_setArgOperand(self, it, v, a, fd):
        i, x = rv(a[0]), rv(a[1])
        if not 0 <= i < len(v.args):
            self.bad(it, 'argument %r of a call with %d' % (i, len(v.args)))
        if v.args[i].ty != x.ty:
            self.bad(it, 'argument %d of a call set to another type' % i)
        v.args[i] = x

    def CI_args(self, it, v, a, fd):
        raise Broken('iteration over call arguments at %s' % it.where())

    def CI_arg_size(self, it, v, a, fd):
        return len(v.args)

    # functions / globals / module
    def F_getArg(self, it, f, a, fd):
        i = rv(a[0])
        if not (isinstance(i, int) and 0 <= i < len(f.params)):
            self.bad(it, 'argument %r of %s' % (i, f.name))
            raise Abort('bad argument index')
        return f.params[i]

    def F_getEntryBlock(self, it, f, a, fd):
        return Cell(f.blocks[0])

    def F_getFunctionType(self, it, f, a, fd):
        return f.fty

    def F_getReturnType(self, it, f, a, fd):
        return f.fty.ret

    def F_arg_size(self, it, f, a, fd):
        return len(f.params)

    def F_Create(self, it, f, a, fd):
        xs = [rv(x) for x in a]
        name = next((x for x in xs if isinstance(x, str)), '')
        mod = next((x for x in xs if isinstance(x, LMod)), None)
        g = LFn(name, xs[0], mod)
        if mod is not None:
            mod.fns[name] = g
        return g

    def attr(self, f, *a):
        f.attrs.add(a)
        return None

    def akey(self, x):
        """Attribute as its kind's name (lower case) or its string key."""
        x = rv(x)
        if isinstance(x, tuple) and x and x[0] == 'attr':
            x = x[1]
        if isinstance(x, int):
            return {v: n.lower() for n, v in attr_kinds().items()}.get(x, 'attribute %d' % x)
        if isinstance(x, str):
            return x
        return repr(x)

    def at_index(self, i, k):
        i = rv(i) & 0xffffffff
        return ('ret', k) if i == 0 else ('fn', k) if i == 0xffffffff else ('param', i - 1, k)

    def F_addFnAttr(self, it, f, a, fd):
        return self.attr(f, 'fn', self.akey(a[0]))

    def F_addAttributeAtIndex(self, it, f, a, fd):
        return self.attr(f, *self.at_index(a[0], self.akey(a[1])))

    def F_addParamAttr(self, it, f, a, fd):
        return self.attr(f, 'param', rv(a[0]), self.akey(a[1]))

    def F_addRetAttr(self, it, f, a, fd):
        return self.attr(f, 'ret', self.akey(a[0]))

    def F_removeFnAttr(self, it, f, a, fd):
        f.attrs.discard(('fn', self.akey(a[0])))

    def F_removeAttributeAtIndex(self, it, f, a, fd):
        f.attrs.discard(self.at_index(a[0], self.akey(a[1])))

    def F_removeParamAttr(self, it, f, a, fd):
        f.attrs.discard(('param', rv(a[0]), self.akey(a[1])))

    def F_setDoesNotThrow(self, it, f, a, fd):
        return self.attr(f, 'fn', 'nounwind')

    def F_setOnlyReadsMemory(self, it, f, a, fd):
        return self.attr(f, 'fn', 'readonly')

    def F_setDoesNotAccessMemory(self, it, f, a, fd):
        return self.attr(f, 'fn', 'readnone')

    def F_setOnlyAccessesArgMemory(self, it, f, a, fd):
        return self.attr(f, 'fn', 'argmemonly')

    def F_setOnlyWritesMemory(self, it, f, a, fd):
        return self.attr(f, 'fn', 'writeonly')

    def F_setOnlyAccessesInaccessibleMemOrArgMem(self, it, f, a, fd):
        return self.attr(f, 'fn', 'inaccessibleorarg')

    def F_setOnlyAccessesInaccessibleMemory(self, it, f, a, fd):
        return self.attr(f, 'fn', 'inaccessible')

    def F_setMemoryEffects(self, it, f, a, fd):
        k = rv(a[0])
        if not (isinstance(k, tuple) and k[0] == 'effects'):
            raise Broken('memory effects %r at %s' % (k, it.where()))
        return self.attr(f, 'fn', k[1]) if k[1] != 'unknown' else None

    def F_setWillReturn(self, it, f, a, fd):
        return self.attr(f, 'fn', 'willreturn')

    def F_setMustProgress(self, it, f, a, fd):
        return self.attr(f, 'fn', 'mustprogress')

    def F_setDoesNotRecurse(self, it, f, a, fd):
        return self.attr(f, 'fn', 'norecurse')

    def F_setDoesNotFreeMemory(self, it, f, a, fd):
        return self.attr(f, 'fn', 'nofree')

    def F_setNoSync(self, it, f, a, fd):
        return self.attr(f, 'fn', 'nosync')

    def F_hasParamAttribute(self, it, f, a, fd):
        return int(('param', rv(a[0]), self.akey(a[1])) in f.attrs)

    def F_setCallingConv(self, it, f, a, fd):
        return self.attr(f, 'cc', self.akey(a[0]))

    def F_hasFnAttribute(self, it, f, a, fd):
        return int(('fn', self.akey(a[0])) in f.attrs)

    def G_setUnnamedAddr(self, it, g, a, fd):
        return None

    def G_setAlignment(self, it, g, a, fd):
        g.align = rv(a[0])
        return None

    def G_setLinkage(self, it, g, a, fd):
        g.linkage = rv(a[0])
        return None

    def G_setConstant(self, it, g, a, fd):
        g.isconst = rv(a[0])
        return None

    def G_setInitializer(self, it, g, a, fd):
        g.init = rv(a[0])
        return None

    def G_getValueType(self, it, g, a, fd):
        return g.vt if isinstance(g, LGlobal) else g.fty

    def G_getName(self, it, g, a, fd):
        return g.name

    def M_getOrInsertFunction(self, it, m, a, fd):
        xs = [rv(x) for x in a]
        name = xs[0]
        if isinstance(xs[1], LT) and xs[1].k == 'fn':
            fty = xs[1]
        else:
            ts = []
            for x in xs[1:]:
                if isinstance(x, LT):
                    ts.append(x)
                elif isinstance(x, Vec):
                    ts += [c.v for c in x.c if isinstance(c.v, LT)]
            fty = mk('fn', ret=ts[0], elts=tuple(ts[1:]))
        if not isinstance(name, str):
            raise Broken('function name %r at %s' % (name, it.where()))
        if name not in m.fns:
            m.fns[name] = LFn(name, fty, m)
        elif m.fns[name].fty != fty:
            self.bad(it, 'symbol %s used with two types: %s and %s' % (name, m.fns[name].fty, fty))
        f = m.fns[name]
        return f

    def M_getFunction(self, it, m, a, fd):
        return m.fns.get(rv(a[0]))

    def M_getContext(self, it, m, a, fd):
        return Cell(m.ctx)

    def M_getDataLayout(self, it, m, a, fd):
        return Cell(Sym(('datalayout',)))

    def M_getGlobalVariable(self, it, m, a, fd):
        n = rv(a[0])
        for g in m.globals:
            if g.name == n:
                return g
        return None

    def A_get(self, it, x, a, fd):
        return ('attr', self.akey(a[1]))

    def FC_getCallee(self, it, f, a, fd):
        return f

    def FC_getFunctionType(self, it, f, a, fd):
        return f.fty

    def I_getDeclaration(self, it, x, a, fd):
        mod, i = rv(a[0]), rv(a[1])
        ts = self.seq(it, a[2]) if len(a) > 2 else []
        return self.intrinsic(it, mod, i, ts)

    I_getOrInsertDeclaration = I_getDeclaration

    def intrinsic(self, it, mod, i, ts):
        name = intr_name(i) if isinstance(i, int) else None
        if name is None:
            raise Broken('intrinsic id %r at %s' % (i, it.where()))
        want = {'llvm.powi': 2}.get(name, 1)
        if name in OVER1 and len(ts) != want:
            self.bad(it, 'intrinsic %s declared with %d overload types, needs %d' % (name, len(ts), want))
            raise Abort('bad intrinsic overload')
        t = ts[0] if ts else VOID
        base = name.replace('llvm.', '')
        if base == 'powi':
            ps = (t, ts[1])
        elif base == 'abs':
            ps = (t, tint(1))
        elif base in ('pow', 'minnum', 'maxnum', 'minimum', 'maximum', 'smax', 'smin', 'umax', 'umin', 'copysign'):
            ps = (t, t)
        elif base == 'fma':
            ps = (t, t, t)
        else:
            ps = (t,)
        fp = t.k in ('float', 'double')
        if base in ('abs', 'smax', 'smin', 'umax', 'umin', 'ctpop', 'bswap', 'bitreverse'):
            if fp:
                self.bad(it, 'intrinsic %s on %s' % (name, t))
        elif name in OVER1 and not fp:
            self.bad(it, 'intrinsic %s on %s' % (name, t))
        full = name + ''.join('.' + str(x).replace('float', 'f32').replace('double', 'f64') for x in ts)
        f = LFn(full, mk('fn', ret=t, elts=ps), mod)
        f.intrinsic = name
        return f

    # ---------------- constants ----------------
    def C_get(self, it, cls, c, a, fd):
        xs = [rv(x) for x in a]
        if cls == 'ConstantInt':
            if isinstance(xs[0], LT):
                t = xs[0]
                if t.k != 'int':
                    self.bad(it, 'integer constant of type %s' % t)
                    raise Abort('bad constant type')
                return self.cint(it, t, xs[1])
            if isinstance(xs[-1], tuple) and xs[-1][0] == 'apint':
                return self.cint(it, tint(xs[-1][1]), xs[-1][2])
            raise Broken('ConstantInt::get %r' % (xs,))
        if cls == 'ConstantFP':
            if isinstance(xs[-1], tuple) and xs[-1] and xs[-1][0] == 'apfloat':
                t = xs[0] if isinstance(xs[0], LT) else mk(xs[-1][1])
                if t.k != xs[-1][1]:
                    self.bad(it, 'floating constant of type %s from a %s' % (t, xs[-1][1]))
                    raise Abort('bad constant type')
                xs = [t, xs[-1][2]]
            t = xs[0]
            if not isinstance(t, LT) or t.k not in ('float', 'double'):
                self.bad(it, 'floating constant of type %s' % (t,))
                raise Abort('bad constant type')
            v = xs[1]
            if isinstance(v, Sym):
                v = ('sym', v.t)
            return LV('const', [], t, v=v)
        if cls == 'ConstantPointerNull':
            return LV('nullptr', [], PTR)
        if cls == 'ConstantStruct':
            t = xs[0]
            es = self.seq(it, a[1]) if isinstance(xs[1], Vec) else [x for x in xs[1:] if isinstance(x, LV)]
            if t.k != 'struct' or len(es) != len(t.elts) or any(x.ty != y for x, y in zip(es, t.elts)):
                self.bad(it, 'struct constant %s does not fit %s' % ([str(x.ty) for x in es], t))
                raise Abort('bad struct constant')
            return LV('conststruct', es, t)
        if cls == 'ConstantArray':
            t = xs[0]
            es = self.seq(it, a[1])
            if t.k != 'array' or t.n != len(es) or any(x.ty != t.elts[0] for x in es):
                self.bad(it, 'array constant does not fit %s' % t)
            return LV('constarray', es, t)
        if cls == 'ConstantDataArray':
            r = rv(a[1])
            et = self.elem_of(fd)
            if isinstance(r, Vec):
                vals = [charval(c.v) if isinstance(c.v, str) and len(c.v) == 1 else c.v for c in r.c]
            elif isinstance(r, str):
                vals = [charval(c) for c in r]
            else:
                raise Broken('constant data %r at %s' % (r, it.where()))
            return LV('constdata', [], mk('array', elts=(et,), n=len(vals)), v=vals)
        if cls in ('UndefValue', 'PoisonValue'):
            return LV('undef' if cls == 'UndefValue' else 'poison', [], xs[0])
        if cls == 'ConstantAggregateZero':
            return LV('conststruct', [self.zero(it, x) for x in xs[0].elts], xs[0])
        raise Broken('%s::get at %s' % (cls, it.where()))

    def elem_of(self, fd):
        for t in fd.ta or []:
            if t[0] == 't':
                q = t[1].s.replace('const ', '')
                if t[1].k == 'flt':
                    return FLOAT if t[1].w == 32 else DOUBLE
                if t[1].k == 'int' and t[1].w:
                    return tint(t[1].w)
        p = fd.p[1]
        for t in p.strip().ta or []:
            if t[0] == 't':
                if t[1].k == 'flt':
                    return FLOAT if t[1].w == 32 else DOUBLE
                if t[1].w:
                    return tint(t[1].w)
        raise Broken('element type of %s' % fd.q)

    def zero(self, it, t):
        if t.k == 'int':
            return LV('const', [], t, v=0)
        if t.k in ('float', 'double'):
            return LV('const', [], t, v=0.0)
        if t.k == 'ptr':
            return LV('nullptr', [], PTR)
        if t.k == 'struct':
            return LV('conststruct', [self.zero(it, x) for x in t.elts], t)
        raise Broken('zero of %s' % t)

    def C_getNullValue(self, it, cls, c, a, fd):
        return self.zero(it, rv(a[0]))

    def C_getAllOnesValue(self, it, cls, c, a, fd):
        t = rv(a[0])
        return self.cint(it, t, -1)

    def C_getSigned(self, it, cls, c, a, fd):
        return self.cint(it, rv(a[0]), rv(a[1]))

    def C_getZero(self, it, cls, c, a, fd):
        t = rv(a[0])
        neg = rv(a[1]) if len(a) > 1 else 0
        return LV('const', [], t, v=-0.0 if neg else 0.0)

    def C_getTrue(self, it, cls, c, a, fd):
        return LV('const', [], tint(1), v=1)

    def C_getFalse(self, it, cls, c, a, fd):
        return LV('const', [], tint(1), v=0)

    def C_getBool(self, it, cls, c, a, fd):
        return LV('const', [], tint(1), v=int(bool(rv(a[1]))))

    def C_getString(self, it, cls, c, a, fd):
        s = rv(a[1])
        addnull = rv(a[2]) if len(a) > 2 else 1
        vals = [charval(c) for c in s] + ([0] if addnull else [])
        return LV('constdata', [], mk('array', elts=(tint(8),), n=len(vals)), v=vals)

    def C_getInBoundsGetElementPtr(self, it, cls, c, a, fd):
        t, base = rv(a[0]), rv(a[1])
        idx = self.seq(it, a[2])
        return LV('constgep', [base] + idx, PTR, t=t)

    C_getGetElementPtr = C_getInBoundsGetElementPtr

    def C_getIntToPtr(self, it, cls, c, a, fd):
        return LV('constexpr', [rv(a[0])], rv(a[1]), e='inttoptr')

    def C_getPtrToInt(self, it, cls, c, a, fd):
        return LV('constexpr', [rv(a[0])], rv(a[1]), e='ptrtoint')

    def C_getBitCast(self, it, cls, c, a, fd):
        return rv(a[0])

    C_getPointerCast = C_getBitCast

    def C_isNullValue(self, it, cls, c, a, fd):
        return int(c.op == 'nullptr' or c.kw.get('v') == 0)

    def C_isZero(self, it, cls, c, a, fd):
        return int(c.kw.get('v') == 0)

    # ---------------- builder ----------------
    def B_GetInsertBlock(self, it, fd, this, a, e):
        return rv(this).bb

    def B_SetInsertPoint(self, it, fd, this, a, e):
        x = rv(a[0])
        if isinstance(x, LBB):
            rv(this).bb = x
        elif isinstance(x, LV) and x.bb is not None:
            raise Broken('SetInsertPoint before an instruction')
        else:
            self.bad(it, 'insert point set to %r' % (x,))
            raise Abort('bad insert point')
        return None

    def B_getContext(self, it, fd, this, a, e):
        return Cell(LCtx())

    def B_getFloatTy(self, it, fd, this, a, e):
        return FLOAT

    def B_getDoubleTy(self, it, fd, this, a, e):
        return DOUBLE

    def B_getVoidTy(self, it, fd, this, a, e):
        return VOID

    def B_getPtrTy(self, it, fd, this, a, e):
        return PTR

    def B_getIntNTy(self, it, fd, this, a, e):
        return tint(rv(a[0]))

    def B_getIntN(self, it, fd, this, a, e):
        return self.cint(it, tint(rv(a[0])), rv(a[1]))

    def B_getTrue(self, it, fd, this, a, e):
        return LV('const', [], tint(1), v=1)

    def B_getFalse(self, it, fd, this, a, e):
        return LV('const', [], tint(1), v=0)

    def B_setFastMathFlags(self, it, fd, this, a, e):
        it.event('fastmath')
        rv(this).fmf = 'fast'
        return None

    def B_clearFastMathFlags(self, it, fd, this, a, e):
        return None

    def create_at(self, it, cls, a, fd):
        """Instruction created by its class' Create at an explicit position (appended to a block)."""
        xs = [rv(x) for x in a]
        at = [x for x, p in zip(xs, fd.p) if 'InsertPosition' in p.s or (isinstance(x, LBB) and p is fd.p[-1])]
        at = [x for x in at if x is not None]
        if cls == 'BranchInst':
            n = 3 if len(fd.p) >= 4 or (len(fd.p) == 3 and 'Value' in fd.p[2].s) else 1
            if n == 3:
                b, n, a = LBuilder(self.at_block(it, xs[3:])), 'CondBr', [a[2], a[0], a[1]]
            else:
                b, n, a = LBuilder(self.at_block(it, xs[1:])), 'Br', a[:1]
            return self.create(it, n, b, a, fd)
        b = LBuilder(self.at_block(it, at))
        if cls == 'ReturnInst':
            v = [y for y, x in zip(a, xs) if isinstance(x, LV)]
            return self.create(it, 'Ret' if v else 'RetVoid', b, v[:1], fd)
        return self.create(it, {'PHINode': 'PHI', 'SelectInst': 'Select'}[cls], b, a, fd)

    def at_block(self, it, xs):
        xs = [x for x in xs if x is not None]
        if len(xs) == 1 and isinstance(xs[0], LBB):
            return xs[0]
        raise Broken('instruction inserted at %r at %s' % (xs, it.where()))

    def create(self, it, n, b, a, fd):
        if n == 'BinOp':
            ops = dict(enumerate(('Add', 'FAdd', 'Sub', 'FSub', 'Mul', 'FMul', 'UDiv', 'SDiv', 'FDiv', 'URem', 'SRem', 'FRem',
                                  'Shl', 'LShr', 'AShr', 'And', 'Or', 'Xor'), 13))
            return self.create(it, ops[rv(a[0])], b, a[1:3], fd)
        if n in BINI:
            x, y = self.val(it, a[0], n), self.val(it, a[1], n)
            op = BINI[n]
            self.same(it, x, y, n)
            fp = x.ty.k in ('float', 'double')
            if fp != (op[0] == 'f'):
                self.bad(it, '%s on %s' % (n, x.ty))
            extra = [rv(z) for z in a[2:]]
            if n in ('Add', 'Sub', 'Mul', 'Shl'):
                fl = [z for z in extra if isinstance(z, (int, bool)) and not isinstance(z, str)]
                if fl and fl[0]:
                    op += ' nuw'
                if len(fl) > 1 and fl[1]:
                    op += ' nsw'
            if n in ('SDiv', 'UDiv', 'LShr', 'AShr'):
                fl = [z for z in extra if isinstance(z, (int, bool)) and not isinstance(z, str)]
                if fl and fl[0]:
                    op += ' exact'
            return self.emit(it, b, LV(op, [x, y], x.ty))
        if n in CASTS:
            x = self.val(it, a[0], n)
            t = rv(a[1])
            return self.cast(it, b, CASTS[n], x, t)
        if n in ('IntCast',):
            x = self.val(it, a[0], n)
            t = rv(a[1])
            sg = rv(a[2])
            if isinstance(sg, Sym):
                sg = it.decide(sg)
            if x.ty.k != 'int' or t.k != 'int':
                self.bad(it, 'integer cast from %s to %s' % (x.ty, t))
                raise Abort('bad cast')
            if x.ty.bits == t.bits:
                return x
            return self.cast(it, b, 'trunc' if x.ty.bits > t.bits else ('sext' if sg else 'zext'), x, t)
        if n in ('ZExtOrTrunc', 'SExtOrTrunc'):
            x = self.val(it, a[0], n)
            t = rv(a[1])
            if x.ty.bits == t.bits:
                return x
            return self.cast(it, b, 'trunc' if x.ty.bits > t.bits else n[:4].lower(), x, t)
        if n == 'FPCast':
            x = self.val(it, a[0], n)
            t = rv(a[1])
            if x.ty == t:
                return x
            return self.cast(it, b, 'fpext' if t.k == 'double' else 'fptrunc', x, t)
        if n == 'Cast':
            ops = {38: 'trunc', 39: 'zext', 40: 'sext', 41: 'fptoui', 42: 'fptosi', 43: 'uitofp', 44: 'sitofp', 45: 'fptrunc', 46: 'fpext', 47: 'ptrtoint', 48: 'inttoptr', 49: 'bitcast'}
            return self.cast(it, b, ops[rv(a[0])], self.val(it, a[1], n), rv(a[2]))
        m = re.match(r'ICmp([A-Z]{2,3})$', n)
        if m:
            return self.cmp(it, b, 'icmp', m.group(1).lower(), a[0], a[1])
        m = re.match(r'FCmp([A-Z]{3})$', n)
        if m:
            return self.cmp(it, b, 'fcmp', m.group(1).lower(), a[0], a[1])
        if n in ('ICmp', 'FCmp', 'Cmp'):
            p = rv(a[0])
            if p in IPRED:
                return self.cmp(it, b, 'icmp', IPRED[p], a[1], a[2])
            if p in FPRED:
                return self.cmp(it, b, 'fcmp', FPRED[p], a[1], a[2])
            raise Broken('predicate %r at %s' % (p, it.where()))
        if n in ('IsNull', 'IsNotNull'):
            x = self.val(it, a[0], n)
            return self.cmp(it, b, 'icmp', 'eq' if n == 'IsNull' else 'ne', x, self.zero(it, x.ty))
        if n == 'Neg':
            x = self.val(it, a[0], n)
            if x.ty.k != 'int':
                self.bad(it, 'neg on %s' % x.ty)
            return self.emit(it, b, LV('sub', [self.zero(it, x.ty), x], x.ty))
        if n == 'FNeg':
            x = self.val(it, a[0], n)
            if x.ty.k not in ('float', 'double'):
                self.bad(it, 'fneg on %s' % x.ty)
            return self.emit(it, b, LV('fneg', [x], x.ty))
        if n == 'Not':
            x = self.val(it, a[0], n)
            if x.ty.k != 'int':
                self.bad(it, 'not on %s' % x.ty)
            return self.emit(it, b, LV('xor', [x, self.cint(it, x.ty, -1)], x.ty))
        if n in ('LogicalAnd', 'LogicalOr'):
            x, y = self.val(it, a[0], n), self.val(it, a[1], n)
            self.same(it, x, y, n)
            return self.emit(it, b, LV('and' if n == 'LogicalAnd' else 'or', [x, y], x.ty))
        if n == 'Freeze':
            return self.val(it, a[0], n)
        if n == 'Select':
            c, x, y = (self.val(it, z, n) for z in a[:3])
            if c.ty != tint(1):
                self.bad(it, 'select condition is %s' % c.ty)
            self.same(it, x, y, 'select')
            return self.emit(it, b, LV('select', [c, x, y], x.ty))
        if n == 'Call':
            xs = [rv(z) for z in a]
            if isinstance(xs[0], LT):
                fty, f, rest = xs[0], xs[1], a[2:]
            else:
                f, rest = xs[0], a[1:]
                fty = f.fty if isinstance(f, LFn) else None
            if not isinstance(f, LFn):
                self.bad(it, 'call of %r' % (f,))
                raise Abort('call of a non-function')
            args = []
            if rest and not isinstance(rv(rest[0]), str):
                args = self.seq(it, rest[0])
            return self.call(it, b, f, fty, args)
        if n in ('UnaryIntrinsic', 'BinaryIntrinsic'):
            k = 1 if n[0] == 'U' else 2
            i = rv(a[0])
            args = [self.val(it, z, n) for z in a[1:1 + k]]
            f = self.intrinsic(it, b.bb.fn.mod if b.bb and b.bb.fn else None, i, [args[0].ty])
            return self.call(it, b, f, f.fty, args)
        if n == 'Intrinsic':
            xs = [rv(z) for z in a]
            if isinstance(xs[0], LT):
                args = self.seq(it, a[2])
                ts = [args[0].ty] if args else []
                if intr_name(xs[1]) == 'llvm.powi':
                    ts = [args[0].ty, args[1].ty]
                f = self.intrinsic(it, None, xs[1], ts)
            else:
                args = self.seq(it, a[2])
                f = self.intrinsic(it, None, xs[0], self.seq(it, a[1]))
            return self.call(it, b, f, f.fty, args)
        mm = {'MinNum': 'minnum', 'MaxNum': 'maxnum', 'Minimum': 'minimum', 'Maximum': 'maximum', 'CopySign': 'copysign'}
        if n in mm:
            x, y = self.val(it, a[0], n), self.val(it, a[1], n)
            self.same(it, x, y, n)
            return self.emit(it, b, LV('call', [x, y], x.ty, fn=self.named_intr(mm[n], x.ty)))
        if n == 'PHI':
            t = rv(a[0])
            if not isinstance(t, LT):
                raise Broken('phi type')
            return self.emit(it, b, LV('phi', [], t))
        if n == 'Br':
            t = rv(a[0])
            if not isinstance(t, LBB):
                self.bad(it, 'branch to %r' % (t,))
                raise Abort('branch to a non-block')
            return self.emit(it, b, LV('br', [t], VOID))
        if n == 'CondBr':
            c = self.val(it, a[0], n)
            if c.ty != tint(1):
                self.bad(it, 'branch condition is %s' % c.ty)
            return self.emit(it, b, LV('condbr', [c, rv(a[1]), rv(a[2])], VOID))
        if n == 'Ret':
            x = self.val(it, a[0], n)
            f = b.bb.fn if b.bb else None
            if f is not None and f.fty.ret != x.ty:
                self.bad(it, 'function %s returning %s returns %s' % (f.name, f.fty.ret, x.ty))
            return self.emit(it, b, LV('ret', [x], VOID))
        if n == 'RetVoid':
            return self.emit(it, b, LV('ret', [], VOID))
        if n == 'Unreachable':
            return self.emit(it, b, LV('unreachable', [], VOID))
        if n == 'Alloca':
            return self.emit(it, b, LV('alloca', [], PTR, t=rv(a[0])))
        if n in ('Load', 'AlignedLoad'):
            t, p = rv(a[0]), self.val(it, a[1], n)
            return self.emit(it, b, LV('load', [p], t))
        if n in ('Store', 'AlignedStore'):
            x, p = self.val(it, a[0], n), self.val(it, a[1], n)
            return self.emit(it, b, LV('store', [x, p], VOID))
        if n in ('GEP', 'InBoundsGEP'):
            t, p = rv(a[0]), self.val(it, a[1], n)
            return self.emit(it, b, LV('gep', [p] + self.seq(it, a[2]), PTR, t=t))
        if n in ('StructGEP',):
            t, p = rv(a[0]), self.val(it, a[1], n)
            return self.emit(it, b, LV('gep', [p, self.cint(it, tint(32), 0), self.cint(it, tint(32), rv(a[2]))], PTR, t=t))
        if n in ('ConstInBoundsGEP1_32', 'ConstGEP1_32', 'ConstInBoundsGEP1_64', 'ConstGEP1_64'):
            t, p = rv(a[0]), self.val(it, a[1], n)
            return self.emit(it, b, LV('gep', [p, self.cint(it, tint(32), rv(a[2]))], PTR, t=t))
        if n in ('ConstInBoundsGEP2_32', 'ConstGEP2_32', 'ConstInBoundsGEP2_64'):
            t, p = rv(a[0]), self.val(it, a[1], n)
            return self.emit(it, b, LV('gep', [p] + [self.cint(it, tint(32), rv(z)) for z in a[2:4]], PTR, t=t))
        if n == 'ExtractValue':
            x = self.val(it, a[0], n)
            idx = [c.v for c in rv(a[1]).c] if isinstance(rv(a[1]), Vec) else [rv(a[1])]
            t = x.ty
            for i in idx:
                if t.k not in ('struct', 'array') or not isinstance(i, int) or (t.k == 'struct' and i >= len(t.elts)):
                    self.bad(it, 'extractvalue %s of %s' % (idx, x.ty))
                    raise Abort('bad extractvalue')
                t = t.elts[i] if t.k == 'struct' else t.elts[0]
            return self.emit(it, b, LV('extractvalue', [x], t, idx=tuple(idx)))
        if n == 'InsertValue':
            x, y = self.val(it, a[0], n), self.val(it, a[1], n)
            idx = [c.v for c in rv(a[2]).c] if isinstance(rv(a[2]), Vec) else [rv(a[2])]
            if x.ty.k != 'struct' or x.ty.elts[idx[0]] != y.ty:
                self.bad(it, 'insertvalue of %s into %s at %s' % (y.ty, x.ty, idx))
            return self.emit(it, b, LV('insertvalue', [x, y], x.ty, idx=tuple(idx)))
        if n in ('GlobalString', 'GlobalStringPtr'):
            raise Broken('CreateGlobalString')
        raise Broken('unmodelled IRBuilder::Create%s at %s' % (n, it.where()))

    def named_intr(self, base, t):
        f = LFn('llvm.%s.%s' % (base, {'float': 'f32', 'double': 'f64'}.get(str(t), str(t))), mk('fn', ret=t, elts=(t, t)), None)
        f.intrinsic = 'llvm.' + base
        return f

    def cast(self, it, b, op, x, t):
        if x.ty == t:
            if op in ('fptosi', 'sitofp', 'fptoui', 'uitofp'):
                self.bad(it, '%s from %s to %s' % (op, x.ty, t))
            return x
        s, d = x.ty, t
        fs, fd_ = s.k in ('float', 'double'), d.k in ('float', 'double')
        ok = {'zext': s.k == d.k == 'int' and s.bits < d.bits, 'sext': s.k == d.k == 'int' and s.bits < d.bits,
              'trunc': s.k == d.k == 'int' and s.bits > d.bits, 'fpext': s.k == 'float' and d.k == 'double',
              'fptrunc': s.k == 'double' and d.k == 'float', 'sitofp': s.k == 'int' and fd_, 'uitofp': s.k == 'int' and fd_,
              'fptosi': fs and d.k == 'int', 'fptoui': fs and d.k == 'int', 'ptrtoint': s.k == 'ptr' and d.k == 'int',
              'inttoptr': s.k == 'int' and d.k == 'ptr', 'bitcast': True}[op]
        if not ok:
            self.bad(it, '%s from %s to %s' % (op, s, d))
        return self.emit(it, b, LV(op, [x], t))

    def cmp(self, it, b, k, p, x, y):
        x, y = self.val(it, x, k), self.val(it, y, k)
        self.same(it, x, y, k)
        fp = x.ty.k in ('float', 'double')
        if fp != (k == 'fcmp') or x.ty.k in ('struct', 'array', 'void'):
            self.bad(it, '%s on %s' % (k, x.ty))
        return self.emit(it, b, LV(k + ' ' + p, [x, y], tint(1)))

    def call(self, it, b, f, fty, args):
        for x in args:
            if not isinstance(x, LV):
                self.bad(it, 'call of %s with %s argument' % (f.name, 'a null' if x is None else repr(x)))
                raise Abort('bad call argument')
        if len(args) != len(fty.elts) and not fty.va:
            self.bad(it, 'call of %s with %d arguments, its type has %d' % (f.name, len(args), len(fty.elts)))
        for i, (x, t) in enumerate(zip(args, fty.elts)):
            if x.ty != t:
                self.bad(it, 'argument %d of %s is %s, the callee takes %s' % (i, f.name, x.ty, t))
        return self.emit(it, b, LV('call', args, fty.ret, fn=f))


# ---------------------------------------------------------------- evaluation of the built CFG

NEGP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
        'ugt': 'ule', 'ule': 'ugt', 'oeq': 'une', 'une': 'oeq', 'olt': 'uge', 'uge_': 'olt'}
FNEG = {'oeq': 'une', 'une': 'oeq', 'ogt': 'ule', 'ule': 'ogt', 'oge': 'ult', 'ult': 'oge', 'olt': 'uge', 'uge': 'olt',
        'ole': 'ugt', 'ugt': 'ole', 'one': 'ueq', 'ueq': 'one', 'ord': 'uno', 'uno': 'ord'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'ult': 'ugt', 'ule': 'uge',
        'ogt': 'olt', 'oge': 'ole', 'oeq': 'oeq', 'one': 'one', 'ueq': 'ueq', 'une': 'une', 'olt': 'ogt', 'ole': 'oge'}
COMM = ('add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul')


def T_const(ty, v):
    return ('c', str(ty), v)


def T(op, ty, *args):
    """Canonical term constructor."""
    ty = str(ty)
    if op.startswith('icmp ') or op.startswith('fcmp '):
        k, p = op.split()
        a, b = args
        if p in ('sgt', 'sge', 'ugt', 'uge', 'ogt', 'oge') or (p in ('eq', 'ne', 'oeq', 'one', 'ueq', 'une') and repr(a) > repr(b)):
            if not (k == 'fcmp' and p in ('ugt', 'uge', 'ult', 'ule')):
                p = SWAP[p]
                a, b = b, a
        # comparing a zero-extended truth value with zero
        for x, y in ((a, b), (b, a)):
            if k == 'icmp' and p in ('eq', 'ne') and y[0] == 'c' and y[2] == 0 and x[0] == 'zext' and len(x) == 3 and ty_of(x[2]) == 'i1':
                return x[2] if p == 'ne' else neg(x[2])
            if k == 'icmp' and p in ('eq', 'ne') and y[0] == 'c' and y[2] == 0 and x[0] in ('zext', 'sext') and len(x) == 3:
                return T(op, ty, x[2], T_const(ty_of(x[2]), 0))
            if k == 'icmp' and p in ('eq', 'ne') and y[0] == 'c' and ty_of(x) == 'i1':
                return x if (p == 'eq') == (y[2] == 1) else neg(x)
        if a[0] == 'c' and b[0] == 'c' and k == 'icmp' and isinstance(a[2], int) and isinstance(b[2], int):
            r = {'eq': a[2] == b[2], 'ne': a[2] != b[2], 'ult': a[2] < b[2], 'ule': a[2] <= b[2]}.get(p)
            if r is not None:
                return T_const('i1', int(r))
        if k == 'icmp' and p == 'ne' and False:
            pass
        return (k + ' ' + p, 'i1', a, b)
    if op in ('zext', 'sext', 'trunc'):
        a = args[0]
        if a[0] == 'c' and isinstance(a[2], int):
            bits = int(ty[1:])
            v = a[2]
            if op == 'sext':
                sb = int(a[1][1:])
                if v >> (sb - 1) & 1:
                    v -= 1 << sb
            return T_const(ty, v % (1 << bits))
        if op == 'zext' and a[0] == 'zext':
            return T('zext', ty, a[2])
        if op == 'sext' and a[0] == 'sext':
            return T('sext', ty, a[2])
        if op == 'trunc' and a[0] in ('zext', 'sext'):
            src = a[2]
            sb, db = int(ty_of(src)[1:]), int(ty[1:])
            if sb == db:
                return src
            if sb > db:
                return T('trunc', ty, src)
            return T(a[0], ty, src)
        return (op, ty, a)
    if op == 'xor':
        a, b = args
        for x, y in ((a, b), (b, a)):
            if y[0] == 'c' and ty == 'i1' and y[2] == 1:
                return neg(x)
        if repr(a) > repr(b):
            a, b = b, a
        return ('xor', ty, a, b)
    if op == 'select':
        c, x, y = args
        if c[0] == 'c':
            return x if c[2] else y
        if x == y:
            return x
        if x[0] == 'c' and y[0] == 'c' and x[2] == 1 and y[2] == 0:
            return c if ty == 'i1' else T('zext', ty, c)
        if x[0] == 'c' and y[0] == 'c' and x[2] == 0 and y[2] == 1:
            return neg(c) if ty == 'i1' else T('zext', ty, neg(c))
        if c[0].startswith('!') :
            return ('select', ty, c[2], y, x)
        if c[0] in ('icmp ne', 'icmp sge', 'icmp uge'):
            return ('select', ty, neg(c), y, x)
        return ('select', ty, c, x, y)
    if op in COMM:
        a, b = args
        if repr(a) > repr(b):
            a, b = b, a
        return (op, ty, a, b)
    if op == 'extractvalue':
        a, idx = args
        if a[0] == 'struct' and len(idx) == 1:
            return a[2 + idx[0]]
        if a[0] == 'insertvalue' and len(idx) == 1:
            if a[4] == idx:
                return a[3]
            return T('extractvalue', ty, a[2], idx)
        return ('extractvalue', ty, a, idx)
    return (op, ty) + args


def ty_of(t):
    return t[1]


def neg(t):
    if t[0] == 'c':
        return T_const('i1', 1 - t[2])
    if t[0] == '!':
        return t[2]
    if t[0].startswith('icmp '):
        p = t[0].split()[1]
        return T('icmp ' + NEGP[p], 'i1', t[2], t[3])
    if t[0].startswith('fcmp '):
        p = t[0].split()[1]
        if p in FNEG:
            return ('fcmp ' + FNEG[p], 'i1', t[2], t[3])
    return ('!', 'i1', t)


class Malformed(Exception):
    pass


class Path:
    def __init__(self):
        self.conds = []
        self.trace = []     # child evaluations and calls in order
        self.env = {}
        self.mem = {}
        self.end = None
        self.ret = None
        self.blocks = []


def term_of(v, env):
    if not isinstance(v, LV):
        raise Malformed('operand is %r' % (v,))
    if v.id in env:
        return env[v.id]
    if v.op == 'const':
        return T_const(v.ty, v.kw['v'])
    if v.op == 'arg':
        return ('arg', str(v.ty), v.kw['i'])
    if v.op == 'nullptr':
        return T_const('ptr', 0)
    if v.op == 'conststruct':
        return ('struct', str(v.ty)) + tuple(term_of(x, env) for x in v.args)
    if v.op == 'global':
        return ('global', 'ptr', v.id)
    if v.op == 'fn':
        return ('fn', 'ptr', v.name)
    if v.op == 'constgep':
        if all(x.op == 'const' and x.kw['v'] == 0 for x in v.args[1:]):
            return term_of(v.args[0], env)
        return ('gep', 'ptr') + tuple(term_of(x, env) for x in v.args) + (str(v.kw['t']),)
    if v.op in ('undef', 'poison'):
        return (v.op, str(v.ty))
    if v.op == 'constexpr':
        return ('expr', str(v.ty), v.kw['e']) + tuple(term_of(x, env) for x in v.args)
    if v.op in ('constdata', 'constarray'):
        return (v.op, str(v.ty), v.id)
    raise Malformed('value %s (created at %s) is used on a path that does not compute it' % (v.op, v.loc))


def paths(start, final, limit=4000, maxlen=60, known=None):
    """All CFG paths from block `start` to the (unterminated) block `final` or to a return.

    Branch outcomes are keyed by the canonical condition, so equal conditions decide equally."""
    out = []

    def go(bb, prev, p, depth):
        if depth > maxlen and any(b is bb for b in p.blocks):
            raise Malformed('control flow does not reach the end (loop through %s)' % bb.name)
        if len(out) > limit:
            raise Broken('more than %d paths' % limit)
        p.blocks.append(bb)
        phis = {}
        seen_non_phi = False
        for v in bb.insts:
            if v.op == 'phi':
                if seen_non_phi:
                    raise Malformed('phi after a non-phi instruction in %s' % bb.name)
                m = [x for x, b in v.args if b is prev]
                if len(m) != 1:
                    raise Malformed('phi at %s has %d incoming values for predecessor %s' % (v.loc, len(m), prev.name if prev else None))
                phis[v.id] = term_of(m[0], p.env)
                continue
            if not seen_non_phi:
                seen_non_phi = True
                p.env.update(phis)
                phis = {}
            if v.op == 'child':
                p.trace.append(('child', v.kw['name']))
                p.env[v.id] = ('child', str(v.ty), v.kw['name'], sum(1 for t in p.trace if t == ('child', v.kw['name'])))
            elif v.op == 'call':
                f = v.kw['fn']
                ar = tuple(term_of(x, p.env) for x in v.args)
                if f.intrinsic:
                    t = canon_intr(f, str(v.ty), ar)
                else:
                    p.trace.append(('call', f.name, ar))
                    t = ('call', str(v.ty), f.name) + ar
                p.env[v.id] = t
            elif v.op == 'alloca':
                p.env[v.id] = ('alloca', 'ptr', v.id, str(v.kw['t']))
            elif v.op == 'store':
                a = term_of(v.args[1], p.env)
                x = term_of(v.args[0], p.env)
                if storefield(p, a, x):
                    continue
                p.mem[a] = x
                if a[0] != 'alloca':
                    p.trace.append(('store', a, p.mem[a]))
            elif v.op == 'load':
                a = term_of(v.args[0], p.env)
                p.env[v.id] = loadterm(p, a, str(v.ty))
            elif v.op == 'gep':
                p.env[v.id] = gepterm(v, p.env)
            elif v.op == 'br':
                return go(v.args[0], bb, p, depth + 1)
            elif v.op == 'condbr':
                c = term_of(v.args[0], p.env)
                base, flip = c, False
                n = neg(c)
                if repr(n) < repr(c):
                    base, flip = n, True
                if c[0] == 'c':
                    return go(v.args[1] if c[2] else v.args[2], bb, p, depth + 1)
                dec = dict(p.conds)
                for val in (True, False):
                    if base in dec and dec[base] != (val != flip):
                        continue
                    if known is not None:
                        k = known(dec, base, val != flip)
                        if k is False:
                            continue
                    q = Path()
                    q.conds = list(p.conds)
                    if base not in dec:
                        q.conds.append((base, val != flip))
                    q.trace = list(p.trace)
                    q.env = dict(p.env)
                    q.mem = dict(p.mem)
                    q.blocks = list(p.blocks)
                    go(v.args[1] if val else v.args[2], bb, q, depth + 1)
                return
            elif v.op == 'ret':
                p.ret = term_of(v.args[0], p.env) if v.args else ('void',)
                p.end = 'ret'
                out.append(p)
                return
            elif v.op == 'unreachable':
                raise Malformed('unreachable reached')
            elif v.op == 'extractvalue':
                p.env[v.id] = T('extractvalue', v.ty, term_of(v.args[0], p.env), v.kw['idx'])
            elif v.op == 'insertvalue':
                p.env[v.id] = ('insertvalue', str(v.ty), term_of(v.args[0], p.env), term_of(v.args[1], p.env), v.kw['idx'])
            else:
                p.env[v.id] = T(v.op, v.ty, *[term_of(x, p.env) for x in v.args])
        p.env.update(phis)
        if bb is final:
            p.end = 'final'
            out.append(p)
            return
        raise Malformed('block %s has no terminator' % bb.name)

    go(start, None, Path(), 0)
    # phi completeness over the static CFG
    return out


def storefield(p, a, x):
    """Store into a field of a struct held in an alloca."""
    if a[0] == 'gep' and a[2][0] == 'alloca':
        idx = a[3:-1]
        if len(idx) == 2 and all(i[0] == 'c' for i in idx) and idx[0][2] == 0 and isinstance(idx[1][2], int):
            base = p.mem.get(a[2])
            if base is None:
                base = ('undef', a[2][3])
            p.mem[a[2]] = ('insertvalue', a[2][3], base, x, (idx[1][2],))
            return True
    return False


def loadterm(p, a, ty):
    if a in p.mem:
        return p.mem[a]
    if a[0] == 'gep' and a[2][0] == 'alloca':
        base = p.mem.get(a[2])
        idx = a[3:-1]
        if base is not None and all(x[0] == 'c' for x in idx) and idx and idx[0][2] == 0:
            t = base
            for x in idx[1:]:
                t = T('extractvalue', ty, t, (x[2],))
            return t
    return ('load', ty, a)


def gepterm(v, env):
    b = term_of(v.args[0], env)
    idx = tuple(term_of(x, env) for x in v.args[1:])
    if all(x[0] == 'c' and x[2] == 0 for x in idx) and b[0] != 'alloca':
        return b
    if all(x[0] == 'c' and x[2] == 0 for x in idx) and len(idx) == 1:
        return b
    return ('gep', 'ptr', b) + idx + (str(v.kw['t']),)


def canon_intr(f, ty, ar):
    n = f.intrinsic
    # min/max intrinsics on integers equal the compare+select form
    if n in ('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin'):
        a, b = ar
        p = n[5] + 'lt'
        c = T('icmp ' + p, 'i1', b, a)      # b < a
        return T('select', ty, c, a, b) if n.endswith('max') else T('select', ty, c, b, a)
    return ('intr', ty, n) + ar


def check_cfg(fn):
    """Static well-formedness of the whole function: terminators, phi predecessors."""
    probs = []
    preds = {}
    for b in fn.blocks:
        if b.insts and b.ended:
            t = b.insts[-1]
            for s in t.args:
                if isinstance(s, LBB):
                    preds.setdefault(id(s), []).append(b)
    for b in fn.blocks:
        ps = preds.get(id(b), [])
        for v in b.insts:
            if v.op == 'phi':
                inc = [x[1] for x in v.args]
                if len(inc) != len(ps) or any(not any(x is y for y in ps) for x in inc) or \
                        any(not any(x is y for y in inc) for x in ps):
                    probs.append('phi created at %s:%s lists predecessors [%s] but block %s has [%s]' % (
                        (v.loc or ('?', 0)) + (', '.join(x.name for x in inc), b.name, ', '.join(x.name for x in ps))))
        for i, v in enumerate(b.insts[:-1]):
            if v.op in ('br', 'condbr', 'ret', 'unreachable'):
                probs.append('terminator in the middle of block %s' % b.name)
    return probs


def norm_cond(c, val):
    n = neg(c)
    if repr(n) < repr(c):
        return n, not val
    return c, val


def case(conds, children, result=None, calls=None):
    """Expected path: {normalised condition -> outcome}, children evaluated in order, resulting term."""
    return frozenset(norm_cond(c, v) for c, v in conds), tuple(children), result
