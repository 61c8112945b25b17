"""Scalar builtins that are expanded inline denote the function their name and types say."""
from ..cg import *
from ..reg import extract, hook_lookup

EXPLAIN = ('Every inline (code-generating) scalar builtin of the registry is abstractly evaluated on opaque operands of each '
           'registered signature; the IR term it emits must be the documented function: right intrinsic, signedness-correct '
           'conversion of integer operands, right operand order, documented result type, no other side effect.')
ASSUME = ['LLVM intrinsic semantics']

FN1 = {'exp', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'sqrt', 'ceil', 'floor', 'round', 'trunc'}
SKIP = {'FilterByBitmap', 'GroupKeys', 'GroupSum', 'GroupMax', 'GroupMin', 'GroupAvg', 'ListLookupIndex'}


def expected(e):
    a = [child('a%d' % i, t) for i, t in enumerate(e.params)]
    rt = e.ret
    ty = str(LTY[rt])
    n = e.name

    def c(i, to=rt):
        return conv(a[i], e.params[i], to)
    if n in FN1:
        return [('intr', ty, 'llvm.' + n, c(0))]
    if n == 'frac':
        return [T('fsub', LTY[rt], c(0), ('intr', ty, 'llvm.trunc', c(0)))]
    if n == 'pow':
        if is_int(e.params[1]):
            return [('intr', ty, 'llvm.powi', c(0), c(1, 'I32')), ('intr', ty, 'llvm.pow', c(0), c(1))]
        return [('intr', ty, 'llvm.pow', c(0), c(1))]
    if n == 'abs':
        if is_int(rt):
            return [('intr', ty, 'llvm.abs', c(0), T_const('i1', f)) for f in (1, 0)]
        return [('intr', ty, 'llvm.fabs', c(0))]
    if n in ('min', 'max'):
        x, y = c(0), c(1)
        out = []
        if is_int(rt):
            p = 'icmp ' + ('s' if rt[0] == 'I' else 'u')
            ps = [p + 'lt', p + 'le']
        else:
            # every form that selects the smaller/larger of two ordered values
            ps = ['fcmp olt', 'fcmp ole', 'fcmp ult', 'fcmp ule']
            out += [('intr', ty, 'llvm.%snum' % n, x, y), ('intr', ty, 'llvm.%simum' % n, x, y), ('intr', ty, 'llvm.%snum' % n, y, x)]
        for p in ps:
            for u, v in ((x, y), (y, x)):
                q = T(p, 'i1', u, v)      # u < v
                out.append(T('select', LTY[rt], q, *((u, v) if n == 'min' else (v, u))))
        return out
    if n.startswith('Cast'):
        return [c(0)]
    if n in ('Len', 'StringLen'):
        return [T('extractvalue', 'i32', a[0], (1,))]
    if n == 'Truncate':
        l = T('extractvalue', 'i32', a[0], (1,))
        out = []
        for p in ('icmp ult', 'icmp ule'):
            for u, v in ((a[1], l), (l, a[1])):
                s = T('select', 'i32', T(p, 'i1', u, v), u, v)
                out.append(('insertvalue', str(PAIR), a[0], s, (1,)))
        return out
    if n == 'FindMiss':
        return [T_const('i32', 0xffffffff)]
    raise Broken('inline builtin %s has no specification' % n)


def run(ctx):
    w = CGCheck(ctx)
    w.real_text = True
    es = extract(w)
    hook_lookup(w, es)
    names = set()
    for e in es:
        if e.kind != 'I' or e.name in SKIP:
            continue
        names.add(e.name)
        try:
            want = expected(e)
        except Broken:
            ctx.ob('specified', e.sig(), False, e.loc, 'inline builtin outside the documented set')
            continue
        outs, _ = w.gen('FunctionNode', lambda: w.new('FunctionNode', e.name, w.vec([w.up(w.stub('a%d' % i, t)) for i, t in enumerate(e.params)])), rt=e.ret)
        ok, why = True, ''
        for o in outs:
            mal = [x for x in o['events'] if x['kind'] in ('malformed', 'nullderef', 'oob')]
            if mal:
                ok, why = False, mal[0].get('what')
            elif o['kind'] != 'ret' or o['ret'][0] != 'OK':
                ok, why = False, str(o.get('why') or o.get('ret', ('?',))[:2])
            else:
                for conds, tr, t, p in o['ret'][2]:
                    ch, calls = split_trace(tr)
                    if conds:
                        ok, why = False, 'result depends on a branch'
                    elif ch != tuple('a%d' % i for i in range(len(e.params))) or calls:
                        ok, why = False, 'evaluates %s, calls %s' % (list(ch), calls)
                    elif t not in want:
                        ok, why = False, 'computes %s, expected %s' % (show(t), show(want[0]))
                    elif o['ret'][1].ty is not LTY[e.ret]:
                        ok, why = False, 'value of type %s, expected %s' % (o['ret'][1].ty, LTY[e.ret])
        ctx.ob('inline-builtin', '%s -> %s' % (e.sig(), e.ret), ok, e.loc, why)
    ctx.stats.update(builtins=len(names), functions=len(w.it.visited_funcs))
    ctx.need('inline-builtin', 180)
