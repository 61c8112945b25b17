"""Every builtin overload is bound to a native function with exactly the declared ABI types."""
from ..reg import *
from ..cg import CG

EXPLAIN = ('The registry initialisation is evaluated on the typed AST (loops, templates and helper functions included); for '
           'every registered native overload the type of the bound C++ function (parameter count, width, signedness, '
           'floating kind, string/list struct layout, pointer, result) is compared with the declared value types, including '
           'the injected context argument.')
ASSUME = ['x86-64 SysV passing of {ptr, u32} aggregates as used by the engine']


def layout(p, t):
    """Value type name(s) represented by C++ type t."""
    t = t.strip() if t.k == 'ref' else t
    s = t.s.replace('const ', '')
    if t.k == 'ptr':
        return 'Ptr'
    if s in ('bool', '_Bool'):
        return 'bool'
    if s in LETTER:
        return LETTER[s]
    if s == 'void':
        return 'Void'
    if t.k == 'int' and t.w:
        return ('I' if t.sg else 'U') + str(t.w)
    r = p.rec(t)
    if r is not None and not r.bases:
        fs = r.fields
        if len(fs) == 2 and fs[0].type.k == 'ptr' and layout(p, fs[1].type) == 'U32' and fs[0].off in (0, None):
            e = fs[0].type.e
            x = layout(p, e)
            if e.s.replace('const ', '') == 'char':
                return 'String'
            if x == 'String':
                return 'StringList'
            if is_num(x):
                return x + 'List'
    return '?' + s


def run(ctx):
    w = CG()
    es = extract(w)
    seen = {}
    for e in es:
        k = (e.name, tuple(e.params))
        ctx.ob('registered-once', e.sig(), k not in seen, e.loc, 'already registered at %s' % (seen.get(k),))
        seen[k] = e.loc
        if e.kind != 'C':
            ctx.ob('codegen-bound', e.sig(), e.cg is not None, e.loc, 'intrinsic without a code generation function')
            continue
        if e.cfunc is None:
            ctx.ob('abi', e.sig(), False, e.loc, 'no native function bound')
            continue
        want = list(e.params) + (['Ptr'] if e.inject else [])
        got = [layout(w.p, t) for t in e.cfunc.p]
        ret = layout(w.p, e.cfunc.r)
        wr = e.ret
        ok = got == want and (ret == wr or (ret == 'bool' and wr == 'U8'))
        ctx.ob('abi', e.sig(), ok, e.loc, 'bound to %s taking (%s) -> %s; declared (%s) -> %s' % (e.cfunc.q, ', '.join(got), ret, ', '.join(want), wr))
        ctx.ob('not-variadic', e.sig(), not e.cfunc.va, e.loc, 'variadic native function')
    ctx.stats.update(registrations=len(es), native=sum(e.kind == 'C' for e in es), functions=len(w.it.visited_funcs))
    ctx.need('abi', 1000)
