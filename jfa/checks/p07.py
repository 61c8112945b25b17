"""Calls whose arguments the optimizer pipeline may reorder are really symmetric, and nothing else is reordered."""
from ..kcheck import *
from .. import terms as tm
from ..llvmsim import *
from ..prog import Broken

EXPLAIN = ('Every function pass the repository adds to the optimizer pipeline is evaluated on call instructions of every arity '
           'from 0 to 4, with and without the attributes each registered function is given, equal and different leading '
           'argument types and both operand orders: it may at most exchange the first two arguments. For every registered '
           'native function whose attributes allow the exchange, the function is evaluated on (a, b, ...) and (b, a, ...) '
           'with opaque elements in one trace partition; both results must be the same term.')
ASSUME = ['floating point addition and multiplication commute (NaN payloads aside)', 'lists of 0 to 3 opaque elements, and 8/9/17 concrete ones']


def passes(p):
    out = []
    for f in p.fdecls.values():
        if f.key in p.funcs and f.q and f.q.endswith('::run') and f.p and len(f.p) == 2 and f.p[0].k == 'ref' and (f.p[0].e.q or f.p[0].e.s) == 'llvm::Function' and 'AnalysisManager' in f.p[1].s:
            out.append(f)
    return out


def run_pass(w, f, calls):
    """Apply pass f to an entry function holding the calls; [(outcome events)]."""
    w.context()
    fn = w.entry
    bb = w.entry_bb
    for c in calls:
        c.bb = bb
        bb.insts.append(c)
    before = [list(bb.insts), [x.kw.get('fn') for x in calls]]

    def thunk():
        for c, a in zip(calls, args):
            c.args[:] = a
        this = None if f.static else Cell(Obj(f.cls))
        w.it.call_fn(f, this, [fn, Cell(None)])
        return [list(c.args) for c in calls], list(bb.insts) == before[0] and len(fn.blocks) == 1 and [x.kw.get('fn') for x in calls] == before[1]
    args = [list(c.args) for c in calls]
    return w.it.explore(thunk)


def callee(w, name, tys, attrs=()):
    f = LFn(name, mk('fn', ret=tint(32), elts=tuple(tys)), w.mod)
    f.attrs |= set(attrs)
    return f


def call(f, args):
    return LV('call', args, tint(32), fn=f)


def run(ctx):
    kw = KC()
    w = kw.w
    w.context()
    ps = passes(w.p)
    setters = {}
    for e in entries(kw):
        if e.attr is not None:
            setters.setdefault(repr(e.attr), e)
    attrs = {}
    for k_, e in sorted(setters.items()):
        f = callee(w, 'probe', [PTR])

        def thunk():
            w.it.call_value(e.attr, [w.mod, f])
            return True
        f.attrs = set()
        outs = w.it.explore(thunk)
        if [o['kind'] for o in outs] != ['ret']:
            raise Broken('attribute setter %s not evaluated: %s' % (k_, outs[0].get('why')))
        attrs[k_] = set(f.attrs)
    swaps = {k_: False for k_ in attrs}
    for f in ps:
        loc = (w.p.funcs[f.key].file, w.p.funcs[f.key].line)
        for k_, at in sorted(attrs.items()) + [('no attributes', set())]:
            for n in range(5):
                for same in (True, False):
                    if n < 2 and not same:
                        continue
                    for order in (0, 1, 2):
                        tys = [PAIR_, PAIR_ if same else tint(64), PTR, tint(8)][:n]
                        xs = [LV('arg', [], t, i=i, fn='f') for i, t in enumerate(tys)]
                        if order == 1 and n > 1:
                            xs[0].id, xs[1].id = xs[1].id, xs[0].id
                        if order == 2:
                            if n < 2 or not same:
                                continue
                            xs[1] = xs[0]
                        fn = callee(w, 'f', tys, at)
                        c = call(fn, xs)
                        o = call(callee(w, 'g', tys), list(xs))      # a neighbour without attributes
                        outs = run_pass(w, f, [c, o])
                        inst = '%s on a call of %d arguments, %s, %s leading types, order %d' % (f.q.split('::')[-2], n, k_, 'equal' if same else 'different', order)
                        ok, why = True, ''
                        for r in outs:
                            if r['kind'] != 'ret':
                                ok, why = False, '%s %s' % (r['kind'], r.get('why'))
                                break
                            (a, b), shape = r['ret']
                            sw = n > 1 and a == [xs[1], xs[0]] + xs[2:] and a != xs
                            if sw and k_ in swaps:
                                swaps[k_] = True
                            if any(x['kind'] == 'malformed' for x in r['events']):
                                ok, why = False, str([x['what'] for x in r['events'] if x['kind'] == 'malformed'][0])
                            elif not shape:
                                ok, why = False, 'instructions or callees change'
                            elif a != xs and not (sw and same):
                                ok, why = False, 'arguments become %s' % (a,)
                            elif b != xs:
                                ok, why = False, 'a call of a function without attributes changes'
                            elif sw and k_ == 'no attributes':
                                ok, why = False, 'exchanges arguments of a function without attributes'
                        ctx.ob('pass-only-exchanges', inst, ok, loc, why)
    # kernels
    n = 0
    for e in entries(kw):
        if e.attr is None or not swaps.get(repr(e.attr)):
            continue
        n += 1
        P = [p for p in e.params if p != 'Ptr']
        loc = where(kw, e)
        if len(e.cfunc.p) < 2 or e.cfunc.p[0].strip().s != e.cfunc.p[1].strip().s:
            ctx.ob('exchange-is-neutral', e.sig(), True, loc)       # never exchanged: different types
            continue
        for sc in scenarios(e, ctx.thorough) or []:
            if sc.huge:
                continue
            r = symmetric(kw, e, sc)
            ctx.ob('exchange-is-neutral', '%s [%s]' % (e.sig(), sc.label), r is None, loc, r)
    ctx.stats['optimizer passes of the repository'] = len(ps)
    ctx.stats['attribute setters'] = {k_: sorted(map(str, v)) for k_, v in attrs.items()}
    ctx.stats['native functions open to exchange'] = n
    ctx.note('%d function passes, attribute sets allowing the exchange: %s' % (len(ps), [k_ for k_, v in swaps.items() if v]))
    if ps and any(swaps.values()):
        ctx.need('exchange-is-neutral', 20)
    if not ps:
        ctx.ob('pass-only-exchanges', 'no function pass is added to the pipeline', True)


PAIR_ = mk('struct', elts=(PTR, tint(32)))


def symmetric(kw, e, sc):
    it = kw.it
    fd = e.cfunc
    it.nan = sc.nan

    def once(args):
        kw.ctx = Cell(kw.context())
        c = [Cell(it.copy(x)) for x in args]
        if len(c) < len(fd.p):
            c.append(Cell(Ptr(kw.ctx)))
        r = it.call_fn(fd, None, c)
        r = r.v if isinstance(r, Cell) else r
        if kw.errors():
            return 'error'
        return kw.read(r, fd.r)

    def thunk():
        kw.args = []
        a, _ = build(kw, e, sc)
        x = once(a)
        y = once([a[1], a[0]] + a[2:])
        if x == 'error' or y == 'error':
            return None if x == y else 'reports an error in one order only'
        return match(kw, x, y)
    try:
        outs = it.explore(thunk)
    except Bad as b:
        return None
    for o in outs:
        if o['kind'] == 'ret' and o['ret']:
            return 'exchanged arguments change the result: ' + o['ret']
        if o['kind'] not in ('ret', 'abort'):
            return '%s %s' % (o['kind'], o.get('why'))
    return None
