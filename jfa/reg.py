"""The builtin function registry, extracted by evaluating its initialisation on the typed AST."""
import os
import re

from . import prog as _prog
from .world import *


class Entry:
    __slots__ = ('name', 'params', 'ret', 'kind', 'cfunc', 'cg', 'attr', 'inject', 'loc', 'override', 'sym', 'obj', 'sobj')

    def sig(self):
        return '%s(%s)' % (self.name, ', '.join(self.params))

    def __repr__(self):
        return '%s->%s' % (self.sig(), self.ret)


def extract(w):
    """[Entry] in registration order (through the real RegisterXxx helpers; RegisterFunc itself is intercepted)."""
    recs = []

    def rf(it, fd, this, a, e):
        loc = None
        for fr in reversed(it.frames):
            if not (fr.loc or ('', 0))[0].endswith('function_registry.cc') and 'function_registry.h' not in (fr.loc or ('',))[0]:
                loc = fr.loc
                break
        recs.append((loc or it.loc(), a))
        return w.ok()
    q = NS + 'FunctionRegistry::RegisterFunc'
    w.p.fn(q)
    w.it.override[q] = rf
    try:
        f = w.p.fn(NS + 'FunctionRegistry::Init')

        def thunk():
            recs.clear()
            return w.status(w.it.run_fn(f, Cell(Obj(w.p.types[NS + 'FunctionRegistry'])), []))
        outs = w.it.explore(thunk)
    finally:
        del w.it.override[q]
    if len(outs) != 1 or outs[0]['kind'] != 'ret' or outs[0]['ret'] != 'OK':
        raise Broken('registry initialisation not evaluated: %s' % [(o['kind'], o.get('ret'), o.get('why')) for o in outs[:3]])
    sf = sign_fields(w)
    tf = struct_fields(w)
    ft = w.p.enum(NS + 'FunctionType')['vals']
    out = []
    for loc, a in recs:
        s = a[0].v if isinstance(a[0], Cell) else a[0]
        t = a[1].v if isinstance(a[1], Cell) else a[1]
        e = Entry()
        e.loc = loc
        e.sobj = s
        e.obj = t
        e.name = s.f[sf['name']].v
        if not isinstance(e.name, str):
            raise Broken('registration with unknown name at %s:%s' % loc)
        e.params = [w.tname(c)for c in s.f[sf['params']].v.c]
        e.ret = w.tname(s.f[sf['ret']])
        e.kind = 'C' if ft[t.f[tf['type']].v] == 'kCFunc' else 'I'
        cf = t.f[tf['cptr']].v
        if isinstance(cf, Ptr):
            cf = cf.target().v
        e.cfunc = cf.f if isinstance(cf, FnRef) else None
        e.cg = t.f[tf['cg']].v
        e.attr = t.f[tf['attr']].v
        e.inject = bool(t.f[tf['inject']].v) if tf['inject'] else False
        ov = a[2] if len(a) > 2 else 0
        e.override = ov.v if isinstance(ov, Cell) else ov
        out.append(e)
    if len(out) < 500:
        raise Broken('only %d registrations found' % len(out))
    return out


def sign_fields(w):
    d = {}
    for f in w.p.rec(w.p.types[NS + 'FunctionSignature']).fields:
        k = f.type.k
        d['ret' if k == 'enum' else ('params' if 'vector' in f.type.s else 'name')] = f.name
    if set(d) != {'ret', 'params', 'name'}:
        raise Broken('function signature fields: %s' % d)
    return d


def struct_fields(w):
    d = {'inject': None}
    for f in w.p.rec(w.p.types[NS + 'FunctionStructure']).fields:
        s = f.type.s
        if f.type.k == 'enum':
            d['type'] = f.name
        elif f.type.k == 'ptr':
            d['cptr'] = f.name
        elif 'Value' in s:
            d['cg'] = f.name
        elif 'function' in s:
            d['attr'] = f.name
        elif s == 'bool':
            d['inject'] = f.name
    return d


DOCT = {'string': 'String', 'ptr': 'Ptr', 'void': 'Void', 'stringlist': 'StringList'}
for _t in NUMS:
    DOCT[_t.lower()] = _t
    DOCT[_t.lower() + 'list'] = _t + 'List'


def doc_overloads():
    """[(line, ret, name, params)] documented in doc/function.md."""
    out = []
    p = os.path.join(_prog.REPO, 'doc', 'function.md')
    if not os.path.exists(p):
        raise Broken('doc/function.md vanished')
    for n, l in enumerate(open(p), 1):
        m = re.match(r'^\s{2,}(\w+)\s+(\w+)\(([^)]*)\)\s*(?://.*)?$', l)
        if not m:
            continue
        ps = []
        for x in m.group(3).split(','):
            x = x.strip()
            if not x:
                continue
            ps.append(x.split()[0])
        if m.group(1) not in DOCT or any(x not in DOCT for x in ps):
            out.append((n, None, l.strip(), None))
            continue
        out.append((n, DOCT[m.group(1)], m.group(2), [DOCT[x] for x in ps]))
    return out


def hook_lookup(w, es):
    """Route GetFuncBySign to the extracted registry (its own behaviour is checked separately)."""
    by = {(e.name, tuple(e.params)): e for e in es}
    sf = sign_fields(w)
    w.p.fn(NS + 'FunctionRegistry::GetFuncBySign')

    def lookup(it, fd, this, a, e):
        s = a[0].v if isinstance(a[0], Cell) else a[0]
        k = (s.f[sf['name']].v, tuple(w.tname(c) for c in s.f[sf['params']].v.c))
        x = by.get(k)
        if x is None:
            it.event('lookup_failed', key=k)
            return w.fail('RuntimeError')
        s.f[sf['ret']].v = w.T(x.ret)
        t = a[1].v if isinstance(a[1], Cell) else a[1]
        if isinstance(t, Ptr):
            t = t.target().v
        for n, c in x.obj.f.items():
            t.f[n].v = it.copy(c.v)
        it.event('lookup', entry=x)
        return w.ok()
    w.it.override[NS + 'FunctionRegistry::GetFuncBySign'] = lookup
    return by


def real_registry(w):
    """FunctionRegistry object obtained by evaluating the factory with no interception."""
    def thunk():
        up = Cell(UPtr(None))
        st = w.call(NS + 'FunctionRegistryFactory::CreateFunctionRegistry', None, Ptr(up))
        if w.status(st) != 'OK':
            raise Broken('registry creation fails')
        return up.v
    outs = w.it.explore(thunk)
    if len(outs) != 1 or outs[0]['kind'] != 'ret':
        raise Broken('registry creation not evaluated: %s' % [(o['kind'], o.get('why')) for o in outs[:3]])
    return outs[0]['ret'].p.target().v


def empty_registry(w):
    t = w.p.types[NS + 'FunctionRegistry']
    r = Obj(t)
    w.it.default_fields(w.p.rec(t), r, set())
    return Cell(r)
