"""The documented builtin overloads exist with the documented result type; context injection forms come in pairs."""
from ..reg import *
from ..cg import CG

EXPLAIN = ('The registry initialisation is evaluated on the typed AST and compared with the overload lists of '
           'doc/function.md: every documented overload must be registered with the documented result type. Every overload '
           'whose native function takes the hidden context has both calling forms (with and without the explicit context '
           'argument) bound to the same native function with the same result type.')
ASSUME = ['doc/function.md is the specification of the available overloads']


def run(ctx):
    w = CG()
    es = extract(w)
    by = {(e.name, tuple(e.params)): e for e in es}
    for line, ret, name, ps in doc_overloads():
        loc = ('doc/function.md', line)
        if ret is None:
            ctx.ob('documented', name, False, loc, 'overload with an unknown type')
            continue
        e = by.get((name, tuple(ps)))
        ctx.ob('documented', '%s(%s)' % (name, ', '.join(ps)), e is not None, loc, 'documented overload is not registered')
        if e is not None:
            ctx.ob('result-type', '%s(%s)' % (name, ', '.join(ps)), e.ret == ret, e.loc, 'registered with result %s, documented %s' % (e.ret, ret))
    for e in es:
        if e.inject:
            l = by.get((e.name, tuple(e.params) + ('Ptr',)))
            ctx.ob('context-forms', e.sig(), l is not None and l.cfunc is e.cfunc and l.ret == e.ret and not l.inject and l.kind == 'C', e.loc,
                   'the form with an explicit context argument is missing or bound differently')
    ctx.stats.update(registrations=len(es), functions=len(w.it.visited_funcs))
    ctx.need('documented', 1000)
    ctx.need('context-forms', 500)
