"""Clones equal their originals and share nothing; printing and visiting agree with the tree."""
import itertools
from .. import alang
from ..lang import *
from .p27 import big
from ..par import pmap

EXPLAIN = ('ExecNode::Clone, ToString, Accept, GetExecNodeType, the accessors and AppendArgs are evaluated on the typed AST for trees that cover every node class, built by the front end and by '
           'direct construction; the copy is compared with its original node by node, for disjoint storage, and the printed form with an independent rendering.')
ASSUME = ['trees without null children', 'printed form of the list and scalar payloads over the sampled literal values']

CLASSES = ('EntryArgumentNode', 'ExecContextNode', 'OutputNode', 'ConstantValueNode', 'ConstantListValueNode', 'UnaryOPNode', 'BinaryOPNode', 'FunctionNode', 'NoOPNode', 'IfNode', 'SwitchNode',
           'IfBlockNode', 'RefNode')
KINDS = dict.fromkeys(CLASSES)
for _c in CLASSES:
    KINDS[_c] = 'k' + _c
KINDS['ConstantValueNode'] = 'kConstValueNode'
KINDS['ConstantListValueNode'] = 'kConstListValueNode'
OPTXT = {'kAdd': '+', 'kSub': '-', 'kMul': '*', 'kDiv': '/', 'kMod': '%', 'kLarge': '>', 'kLargeEqual': '>=', 'kEqual': '==', 'kLess': '<', 'kLessEqual': '<=', 'kNotEqual': '!=',
         'kAnd': '&&', 'kOr': '||'}


def programs():
    for t in list(alang.NUMK):
        one = '1' + t.lower()
        yield 'E', one + ';'
        yield 'E', '[%s, 2%s];' % (one, t.lower())
        yield 'E', '[%s];' % one
    yield from (('E', s) for s in ('1;', '1.5;', '-7;', '"s";', '"";', '["a", "", "b"];', 'true;', 'entry_arg;', 'exec_ctx;', 'output;', 'f();', 'f(1);', 'f(1, g(2), "x", [3]);',
                                   'if(1, 2, 3);', 'if(a(), if(1, 2, 3), b());', 'switch(1, 2);', 'switch(1, 2, 3, f(4));', 'a = 1; a;', 'let a = 1; let b = 2; a + b;', 'a = 1; b = a; b + a;'))
    for o in [o for l in alang.PREC for o in l]:
        yield 'E', '1 %s (2 %s f(3));' % (o, o)
    for u in ('-', '+', '~', 'not '):
        yield 'E', '%s f(%s 1);' % (u, u)
    yield from ((m, s) for m, s in big() if len(s) < 900)
    yield from (('P', s) for s in ('a = 1; b = 2; f(a, b);', 'let a = 1; f(a);', 'when 1 { f(2); }', 'when 1 { a = 2; } f(3);', 'a = 0; when a > 1 { a = 2; } elif 3 { a = 4; } else { a = 5; } f(a);',
                                   'a = 0; when 1 { when 2 { a = 3; b = a; f(b); } else { let c = 4; f(c); } } store(output, 1, a);', 'f(entry_arg, exec_ctx, output, [1, 2], "x", switch(1, 2), if(1, 2, 3), -1);',
                                   '1;', '1; 2; 3;', 'when true { "a"; } elif false { ["b"]; } else { 1.25; }', 'a = 1; when a { a = 2; } a = a + 1; when a { b = a; } f(a);'))


def run(ctx):
    w = Lang()
    p, it = w.p, w.it
    it.max_depth = 600
    cl = p.fn(NS + 'ExecNode::Clone')
    at = (cl.file, cl.line)
    sub = [t for t in CLASSES if (NS + t) in p.types]
    if len(sub) != len(CLASSES):
        raise Broken('node classes vanished: %s' % sorted(set(CLASSES) - set(sub)))
    seen = set()

    # ---- trees: by the front end, and built directly
    up, S = w.up, lambda s: s

    def fe(mode, src):
        b = Cell(w.new(A + 'ProgramAstBuilder'))
        res = Cell(UPtr(None))
        st = w.call(A + 'ProgramAstBuilder::Build' + ('Expression' if mode == 'E' else 'Pipeline'), b, Cell(src), Ptr(res))
        if w.status(st) != 'OK':
            raise Broken('%s is rejected: %s' % (src, w.message(st)))
        return res.v

    def at_(o, k):
        l = it.zero_value(p.types[NS + 'SourceLocation'])
        for n, v in zip(('source_code', 'begin_line', 'begin_col', 'end_line', 'end_col'), ('text%d' % k, k, k + 1, k + 2, k + 3)):
            l.f[n].v = v
        w.call(NS + 'ExecNode::SetLocation', Cell(o), Cell(l))
        return o
    count = itertools.count(3)

    def n(cls, *a, pred=None):
        return up(at_(w.new(cls, *a, pred=pred), next(count)))

    def kids(*ks):
        return w.vec(list(ks))

    def first(ty):
        return lambda d: ty in d.p[0].strip().s

    def vinfo(*items):
        out = []
        for name, const in items:
            o = it.zero_value(p.types[NS + 'VarInfo'])
            o.f['name'].v, o.f['is_const'].v = name, int(const)
            out.append(o)
        return w.vec(out)

    def leaf(k):
        return n(('EntryArgumentNode', 'ExecContextNode', 'OutputNode')[k % 3])

    def direct(i):
        bools = (0, 1)
        if i == 0:
            return n('NoOPNode', kids(leaf(0), leaf(1), leaf(2)), 1, pred=lambda d: 'VarInfo' not in d.p[0].strip().s)
        if i == 1:
            return n('NoOPNode', kids(leaf(1), n('RefNode', 'q')), 0, pred=lambda d: 'VarInfo' not in d.p[0].strip().s)
        if i == 2:
            return n('NoOPNode', vinfo(('a', 1), ('', 0), ('b', 0)), kids(leaf(0), n('RefNode', 'a'), leaf(2)), 1)
        if i == 3:
            return n('NoOPNode', vinfo(('a', 0), ('b', 1)), kids(leaf(0), n('NoOPNode', kids(leaf(0)))), pred=lambda d: 'VarInfo' in d.p[0].strip().s)
        if i == 4:
            return n('IfBlockNode', kids(leaf(0), n('NoOPNode', kids(leaf(1)), 1, pred=lambda d: 'VarInfo' not in d.p[0].strip().s), leaf(1), n('NoOPNode', kids()), n('NoOPNode', kids(leaf(2)))))
        if i == 5:
            return n('IfBlockNode', kids(leaf(0), n('IfBlockNode', kids(leaf(1), leaf(2)))))
        if i == 6:
            return n('FunctionNode', '', kids())
        if i == 7:
            return n('IfNode', kids())
        if i == 8:
            return n('SwitchNode', kids(leaf(2)))
        if i == 9:
            o = n('FunctionNode', 'f', kids(leaf(2)))
            for k in range(3):
                w.call(NS + 'FunctionNode::AppendArgs', o.p.target(), Cell(leaf(k)))
            return o
        if i in (10, 11):
            c = ('IfNode', 'SwitchNode')[i - 10]
            o = n(c, kids(leaf(1)))
            for k in range(4):
                w.call(NS + c + '::AppendArgs', o.p.target(), Cell(leaf(k)))
            return o
        o = n('NoOPNode', kids(leaf(2)))
        w.call(NS + 'NoOPNode::AppendArgs', o.p.target(), Cell(leaf(0)), pred=lambda f: len(f.decl.p) == 1)
        w.call(NS + 'NoOPNode::AppendArgs', o.p.target(), 'v', Cell(leaf(1)), pred=lambda f: len(f.decl.p) == 2)
        w.call(NS + 'NoOPNode::AppendArgs', o.p.target(), 'u', Cell(leaf(2)), 1, pred=lambda f: len(f.decl.p) == 3)
        w.call(NS + 'NoOPNode::AppendArgs', o.p.target(), 't', Cell(leaf(0)), 0, pred=lambda f: len(f.decl.p) == 3)
        return o
    EA, EC, OU = 'EntryArgument', 'ExecContext', 'Output'
    WANT = {0: 'NoOP(True, (\'\', False), (\'\', False), (\'\', False))[EntryArgument ExecContext Output]',
            1: "NoOP(False, ('', False), ('', False))[ExecContext Ref('q',)]",
            2: "NoOP(True, ('a', True), ('', False), ('b', False))[EntryArgument Ref('a',) Output]",
            3: "NoOP(False, ('a', False), ('b', True))[EntryArgument NoOP(False, ('', False))[EntryArgument]]",
            4: "IfBlock[EntryArgument NoOP(True, ('', False))[ExecContext] ExecContext NoOP(False,) NoOP(False, ('', False))[Output]]",
            5: 'IfBlock[EntryArgument IfBlock[ExecContext Output]]', 6: "Function('',)", 7: 'If', 8: 'Switch[Output]',
            9: "Function('f',)[Output EntryArgument ExecContext Output]", 10: 'If[ExecContext EntryArgument ExecContext Output EntryArgument]',
            11: 'Switch[ExecContext EntryArgument ExecContext Output EntryArgument]',
            12: "NoOP(False, ('', False), ('', False), ('v', False), ('u', True), ('t', False))[Output EntryArgument ExecContext Output EntryArgument]"}

    # ---- deep structure
    def cells(x, out):
        """every mutable cell reachable by ownership"""
        if isinstance(x, UPtr):
            x = x.p
            if x is None:
                return out
            c = x.target()
            if id(c) in out:
                return out
            out[id(c)] = c
            return cells(c.v, out)
        if isinstance(x, Obj):
            for f in x.f.values():
                out[id(f)] = f
                cells(f.v, out)
        elif isinstance(x, Vec):
            for f in x.c:
                out[id(f)] = f
                cells(f.v, out)
        elif isinstance(x, Variant):
            out[id(x.c)] = x.c
            cells(x.c.v, out)
        return out

    def srcs(u, out):
        o = w.target(u)
        seen.add(o.cls.q.split('::')[-1])
        l = w.get(o, 'GetLocation')
        out.append((o.cls.q, repr(l.f['source_code'].v)[:200], [l.f[k].v for k in ('begin_line', 'begin_col', 'end_line', 'end_col')]))
        for q in children(o):
            srcs(q, out)
        return out

    def children(o):
        k = o.cls.q.split('::')[-1]
        if k == 'UnaryOPNode':
            return [w.get(o, 'GetChild')]
        if k == 'BinaryOPNode':
            return [w.get(o, 'GetLeft'), w.get(o, 'GetRight')]
        if k in ('FunctionNode', 'NoOPNode', 'IfNode', 'SwitchNode', 'IfBlockNode'):
            return [c.v for c in w.get(o, 'GetArgs').c]
        return []

    def walk(u):
        yield w.target(u)
        for q in children(w.target(u)):
            yield from walk(q)

    # ---- reference printing
    def num(t, v):
        return v if t == 'STRING' else '%f' % v if t in ('F32', 'F64') else '%d' % v

    def text(t, pre=''):
        d = t.data
        if t.kind in ('EntryArgument', 'ExecContext', 'Output'):
            s = {'EntryArgument': 'entry_argument', 'ExecContext': 'exec_context', 'Output': 'output'}[t.kind]
        elif t.kind == 'Const':
            s = num(*d)
        elif t.kind == 'ConstList':
            s = '[' + ','.join(num(d[0], x) for x in d[1]) + ']'
        elif t.kind == 'Unary':
            s = optext(t, 'UnaryOPTypeToString', w.uop, d[0])
        elif t.kind == 'Binary':
            s = optext(t, 'BinaryOPTypeToString', w.bop, d[0])
            if OPTXT.get(d[0], s) != s:
                s = OPTXT[d[0]]
        elif t.kind == 'Function':
            s = d[0]
        elif t.kind == 'Ref':
            s = 'ref(%s)' % d[0]
        elif t.kind == 'NoOP':
            out = pre + '|--no_op\n'
            for (name, const), k in zip(d[1:], t.kids):
                if name:
                    out += pre + '|   |--[' + ('let ' if const else '') + name + ']\n'
                out += text(k, pre + '|   ')
            return out
        else:
            s = {'If': 'if', 'Switch': 'switch', 'IfBlock': 'if_block'}[t.kind]
        return pre + '|--' + s + '\n' + ''.join(text(k, pre + '|   ') for k in t.kids)
    ops = {}

    def optext(t, fn, en, name):
        if (fn, name) not in ops:
            w.real_text = True
            r = w.call(NS + 'TypeHelper::' + fn, None, en['names'][name])
            ops[fn, name] = r.v if isinstance(r, Cell) else r
        return ops[fn, name]

    def value(r):
        return r.v if isinstance(r, Cell) else r

    def rv_(r):
        """evaluated string"""
        r = value(r)
        return r if isinstance(r, str) else repr(r)

    def bad_events(r):
        return [e for e in r['events'] if e['kind'] in ('oob', 'nullderef', 'malformed', 'uninit', 'uaf', 'leak')]

    # ---- clone and print
    jobs = [('src', m, s) for m, s in programs()] + [('direct', i, None) for i in range(13)]
    if ctx.thorough:
        from .p27 import BASE
        jobs += [('src', m, s) for m, s in BASE if ('src', m, s) not in jobs]

    def decide(job):
        out = []

        def thunk():
            w.real_text = True
            u = fe(job[1], job[2]) if job[0] == 'src' else direct(job[1])
            before, loc0 = w.tree(u).show(True), srcs(u, [])
            c0 = cells(u, {})
            txt = rv_(w.call(NS + 'ExecNode::ToString', u.p.target(), Cell('')))
            pre = rv_(w.call(NS + 'ExecNode::ToString', u.p.target(), Cell('> ')))
            ref = w.tree(u)
            cp = w.call(NS + 'ExecNode::Clone', u.p.target())
            cp = value(cp)
            after, loc1 = w.tree(u).show(True), srcs(u, [])
            got, loc2 = w.tree(cp).show(True), srcs(cp, [])
            c1 = cells(cp, {})
            c2 = cells(u, {})
            cc = value(w.call(NS + 'ExecNode::Clone', cp.p.target()))
            ctxt = rv_(w.call(NS + 'ExecNode::ToString', cp.p.target(), Cell('')))
            second = w.tree(cc).show(True)
            out[:] = [before, loc0, after, loc1, got, loc2, set(c0) & set(c1), set(c0) == set(c2), txt, text(ref), ctxt, second, pre, text(ref, '> '), ref.show(),
                      isinstance(cp, UPtr), {o.cls.q.split('::')[-1] for o in walk(u)}]
            return True
        rs = it.explore(thunk)
        if len(rs) != 1 or rs[0]['kind'] != 'ret':
            return [('clone', False, 'does not return: %s' % [(r['kind'], r.get('why')) for r in rs])], set()
        b = bad_events(rs[0])
        if b:
            return [('clone', False, '%s %s' % (b[0]['kind'], b[0].get('what')))], set()
        before, loc0, after, loc1, got, loc2, shared, same, txt, ref, ctxt, second, pre, refp, shape, own, cls = out
        res = []
        why = ''
        if got != before:
            why = 'the copy is %s, the original %s' % diff(got, before)
        elif loc2 != loc0:
            why = 'the copy has other source locations: %s, the original %s' % diff(repr(loc2), repr(loc0))
        elif shared:
            why = '%d storage cells belong to both trees' % len(shared)
        elif after != before or loc1 != loc0 or not same:
            why = 'cloning changes the original'
        elif second != before:
            why = 'the copy of the copy is %s, the original %s' % diff(second, before)
        res.append(('clone', not why, why))
        why = ''
        if txt != ref:
            why = 'prints %r, expected %r' % diff(txt, ref)
        elif ctxt != txt:
            why = 'the copy prints %r, the original %r' % diff(ctxt, txt)
        elif pre != refp:
            why = 'with a prefix prints %r, expected %r' % diff(pre, refp)
        res.append(('print', not why, why))
        if job[0] == 'direct':
            res.append(('append', shape == WANT[job[1]], 'holds %s, expected %s' % (shape, WANT[job[1]])))
        return res, cls

    for job, (res, cls) in zip(jobs, pmap(decide, jobs)):
        seen |= cls
        for k, ok, why in res:
            ctx.ob(k, job[2] or 'direct %d' % job[1], ok, at, why)
    if seen != set(CLASSES):
        if not ctx.viol:
            raise Broken('node classes without a tree: %s' % sorted(set(CLASSES) - seen))

    # ---- one tree per operator, directly: its text is its spelling and no two share one
    for fn, en in (('UnaryOPTypeToString', w.uop), ('BinaryOPTypeToString', w.bop)):
        f = p.fn(NS + 'TypeHelper::' + fn)
        texts = {}
        for name, v in sorted(en['names'].items()):
            if name in ('kUnknown', 'kMax', 'kEnd') or name.startswith('kUnknown'):
                continue
            w.real_text = True
            rs = it.explore(lambda: value(w.call(NS + 'TypeHelper::' + fn, None, v)))
            t = rs[0].get('ret')
            ctx.ob('operator', '%s %s' % (fn, name), isinstance(t, str) and t != '' and t not in texts and OPTXT.get(name, t) == t, (f.file, f.line),
                   'prints as %r%s' % (t, ' like %s' % texts[t] if t in texts else ''))
            texts[t] = name

    # ---- double dispatch
    def node(c):
        a = {'ConstantValueNode': lambda: first_of('1;'), 'ConstantListValueNode': lambda: first_of('[1];'), 'UnaryOPNode': lambda: first_of('-f();'), 'BinaryOPNode': lambda: first_of('f() + 1;'),
             'FunctionNode': lambda: w.new(c, 'f', kids()), 'NoOPNode': lambda: w.new(c, kids(), pred=lambda d: len(d.p) == 1), 'RefNode': lambda: w.new(c, 'r')}
        if c in a:
            return a[c]()
        return w.new(c, kids()) if c in ('IfNode', 'SwitchNode', 'IfBlockNode') else w.new(c)

    def first_of(src):
        u = fe('E', src)
        for o in walk(u):
            if o.cls.q.split('::')[-1] not in ('NoOPNode',):
                return o
        raise Broken('no node in %s' % src)
    visitors = [c for c in ('Validator', 'CodeGen') if (NS + c) in p.types] + [A + 'PipelineGrouper']
    if len(visitors) != 3:
        raise Broken('visitors vanished: %s' % visitors)
    kinds = {}
    for c in CLASSES:
        def th():
            o = node(c)
            return value(w.call(NS + c + '::GetExecNodeType', Cell(o)))
        rs = it.explore(th)
        v = rs[0].get('ret')
        f = p.fn(NS + c + '::GetExecNodeType')
        ctx.ob('kind', c, w.nt['vals'].get(v) == KINDS[c] and v not in kinds, (f.file, f.line), 'reports %s, expected %s' % (w.nt['vals'].get(v, v), KINDS[c]))
        kinds[v] = c
    for c, vis, code in itertools.product(CLASSES, visitors, ('OK', 'RuntimeError', 'ParseError')):
        vq = vis if '::' in vis else NS + vis
        f = p.fn(NS + c + '::Accept')
        log = []

        def visit(i, fd, this, a, e):
            o = a[0].v if isinstance(a[0], Cell) else a[0]
            log.append((fd.p[0].strip().q, o, this))
            return w.ok() if code == 'OK' else w.fail(code)
        old = it.override.get(vq + '::Visit')
        it.override[vq + '::Visit'] = visit

        def th():
            del log[:]
            o = node(c)
            vt = p.types.get(vq)
            if vt is None:
                raise Broken('visitor %s vanished' % vq)
            vc = Cell(Obj(vt))
            st = w.call(NS + c + '::Accept', Cell(o), Ptr(vc))
            return w.status(st), [(q, x is o, (t.v if isinstance(t, Cell) else t) is vc.v) for q, x, t in log]
        rs = it.explore(th)
        if old is None:
            del it.override[vq + '::Visit']
        else:
            it.override[vq + '::Visit'] = old
        r = rs[0].get('ret')
        ctx.ob('accept', '%s by %s (%s)' % (c, vis, code), r == (code, [(NS + c, True, True)]), (f.file, f.line), 'gives %s' % (r,))
    for k, m in (('clone', 90), ('print', 90), ('append', 13), ('operator', 18), ('kind', 13), ('accept', 117)):
        ctx.need(k, m)


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            break
    else:
        i = min(len(a), len(b))
    s = max(0, i - 40)
    return ('...' if s else '') + a[s:i + 60], ('...' if s else '') + b[s:i + 60]
