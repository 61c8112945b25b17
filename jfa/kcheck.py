"""Evaluates the native builtins on their argument shapes (in parallel) and collects obligations."""
import multiprocessing
import os

from .kspec import *
from .kworld import *

KW0 = None
PICK = None


def build(kw, e, sc):
    """Native arguments and their values for the specification."""
    P = [p for p in e.params if p != 'Ptr']
    ct = e.cfunc.p
    args, vals = [], []
    hs = list(sc.huge or ())
    for i, (p, d) in enumerate(zip(P, sc.args)):
        t = ct[i]
        n = hs.pop(0) if hs and (p.endswith('List') or p == 'String') else None
        if p == 'String':
            args.append(kw.string(t, d, n))
            vals.append([kw.it.charterm_of(x) for x in d])
        elif p == 'StringList':
            args.append(kw.list(t, d, n))
            vals.append([[kw.it.charterm_of(x) for x in y] for y in d])
        elif p.endswith('List'):
            args.append(kw.list(t, d, n))
            et = kw.it.unconst(kw.fields(t)[0].type.e)
            vals.append([kw.it.term(kw.val(x, et), et) for x in d])
        else:
            v = kw.val(d, t)
            args.append(v)
            vals.append(kw.it.term(v, t))
    return args, vals


def assume_sorted(kw, e, sc, vals):
    if sc.sorted is None:
        return
    P = [p for p in e.params if p != 'Ptr']
    xs = vals[sc.sorted]
    t = elem(P[sc.sorted])
    f = kw.it.facts
    if t == 'String':
        s = S(f)
        for x, y in zip(xs, xs[1:]):
            if s.slt(y, x):
                raise Abort(SKIP)
        return
    d = S(f).dom(t)
    if d == 'f' and f.nan:
        for x in xs:
            if f.isnan(x):
                raise Abort(SKIP)
    for x, y in zip(xs, xs[1:]):
        if tm.N[x][0] in ('c', 'fc'):
            continue
        f.assume(('le', d, x, y))


SKIP = 'outside the assumed arguments'


def match(kw, got, want):
    """None when the result is the wanted one, else a description."""
    it = kw.it
    f = it.facts
    if isinstance(want, Alt):
        r = [match(kw, got, x) for x in want]
        return None if None in r else r[0]
    if want is ANYV:
        return None
    if isinstance(want, tuple) and want[0] == 'text':
        t = kw.ctype(want[1])
        from .kern import tochars
        fmt = (10,) if t.k != 'flt' else ()
        x = want[2]
        if t.k == 'flt':
            # the 32 bit shortest form, or the text of the exact value widened
            want = tochars(it, t, x, fmt)
        else:
            want = text_of(it, t, x)
    if isinstance(want, tuple) and want[0] == 'parse':
        t = kw.ctype(want[1])
        from .kern import fromchars
        ok, v, used = fromchars(it, t, [kw.char_of(c) for c in want[2]], (10,))
        want = v if ok else tm.const(0, t.w)
    if isinstance(want, tuple) and want[0] == 'sign':
        v = tm.sval(f.sub(got)) if isinstance(got, int) else None
        if v is None or (v > 0) - (v < 0) != want[1]:
            return 'comparison gives %s, expected %s' % (v, {0: 'zero', 1: 'a positive number', -1: 'a negative number'}[want[1]])
        return None
    if isinstance(want, list):
        if not isinstance(got, list):
            return 'result is not a list'
        if len(got) != len(want):
            return 'result has %d elements, expected %d' % (len(got), len(want))
        for i, (g, x) in enumerate(zip(got, want)):
            r = match(kw, g, x)
            if r:
                return 'element %d: %s' % (i, r) if not isinstance(x, list) else 'string %d: %s' % (i, r)
        return None
    if isinstance(got, list):
        return 'result is a list'
    if tm.W[got] != tm.W[want] or tm.F[got] != tm.F[want]:
        return 'result of %d bits, expected %d' % (tm.W[got], tm.W[want])
    if f.same(got, want):
        return None
    return '%s, expected %s' % (tm.show(f.sub(got), 4), tm.show(f.sub(want), 4))


def invalid(kw, e, sc):
    """Whether the documentation rules the argument shape out."""
    def thunk():
        kw.args = []
        try:
            return spec(kw, e, build(kw, e, sc)[1], S(kw.it.facts)) is ERR
        except Unspec:
            return False
    if e.name.startswith('__'):
        return False
    return any(o['kind'] == 'ret' and o['ret'] for o in kw.it.explore(thunk))


def text_of(it, t, x):
    from .kern import tochars
    d = it.path_state.get('tochars', {})
    for k_ in d:
        # the number may have been formatted after a widening of the same signedness
        if k_[0] == 'tochars' and k_[2] == 'int' and k_[5] in ((10,), ()):
            y = k_[1]
            n = tm.N[y]
            if y == x and k_[4] == t.sg:
                return d[k_]
            if n[0] in ('zext', 'sext') and n[2] == x and (n[0] == 'sext') == bool(t.sg) and k_[3] > t.w:
                return d[k_]
            if n[0] == 'c' and tm.N[x][0] == 'c' and (tm.sval(y) if k_[4] else tm.cval(y)) == (tm.sval(x) if t.sg else tm.cval(x)):
                return d[k_]
    return tochars(it, t, x, (10,))


MEM = {'hang': 'memory', 'oob': 'memory', 'nullderef': 'memory', 'uninit': 'memory', 'overlap': 'memory', 'shift': 'memory', 'order': 'memory'}


def one(kw, e, sc, inst):
    """Obligations of one scenario: (rule, instance, ok, why)."""
    res = {}
    state = {}

    def note(rule, ok, why=''):
        r = res.setdefault(rule, [True, ''])
        if not ok and r[0]:
            res[rule] = [False, why]

    def make(k):
        args, vals = build(k, e, sc)
        state['vals'] = vals
        assume_sorted(k, e, sc, vals)
        return args

    def post(k, r):
        try:
            want = ERR if sc.err else spec(k, e, state['vals'], S(k.it.facts))
        except Unspec:
            want = None
        ch = k.changed()
        note('inputs-unchanged', ch is None, 'changes %s' % ch)
        err = k.errors()
        if err or want is ERR:      # what a failing call returns is handed on to the calls around it
            try:
                k.read(r, e.cfunc.r)
            except Bad as b:
                note('memory', False, 'after an error: ' + str(b))
        if want is ERR:
            note('reports-error', err > 0, 'no error is reported')
            return 'done'
        if want is not None:
            note('no-spurious-error', not err, 'reports an error for valid arguments')
            if err:
                note('value', False, 'reports an error for valid arguments')
        if err:
            return 'done'
        try:
            got = k.read(r, e.cfunc.r)
        except Bad as b:
            note('memory', False, str(b))
            note('value', False, str(b))
            return 'done'
        note('memory', True)
        if want is not None:
            w_ = match(k, got, want)
            note('value', w_ is None, w_)
        return 'done'
    fn = e.cfunc
    if e.name.startswith('__Lookup'):
        outs = kw.run_lookup(e, sc, state, post)
    else:
        outs = kw.run(e, make, post, nan=sc.nan, max_paths=sc.limit)
    for o in outs:
        if o['kind'] == 'abort' and o['why'] == SKIP:
            continue
        for ev in o['events']:
            if ev['kind'] in MEM:
                loc = ev.get('loc')
                note('memory', False, '%s at %s:%s' % ((ev.get('what') or ev['kind'],) + tuple(loc[:2] if loc else ('?', 0))))
            elif ev['kind'] == 'div0' and e.name not in ('ListDiv', 'ListMod'):
                note('memory', False, 'division by zero')
        if o['kind'] == 'throw':
            note('memory', False, 'an exception leaves the function')
        if o['kind'] in ('abort', 'throw') and 'memory' in res and not res['memory'][0]:
            note('reports-error' if sc.err or invalid(kw, e, sc) else 'value', False, 'no result: ' + res['memory'][1])
        if o['kind'] == 'abort' and not any(ev['kind'] in MEM or ev['kind'] == 'div0' for ev in o['events']):
            raise Broken('%s %s: %s' % (inst, sc.label, o['why']))
    return [(r, '%s [%s]' % (inst, sc.label), ok, why) for r, (ok, why) in res.items()], len(outs)


def outlen(e, n):
    """Result elements of a builtin on lists of n elements, when fixed by n alone."""
    f = family(e)
    if e.name.startswith('Gen'):
        return n // 8 + (n % 8 != 0)
    if f == 'element' and e.name not in ('FilterByBitmap',) or e.name in ('SortAsc', 'SortDesc', 'ListGather', 'Bucketize', 'GroupIndex') or \
            e.name.startswith('__Lookup') or e.name.startswith('Cast') and e.ret.endswith('List') and e.params[0].endswith('List'):
        return n
    return None


BIG = (0x20000001, 0x40000001, 0x80000001, 0xfffffff9, 0xffffffff)


def sizing(kw, e, inst):
    """First arena request of a builtin on lists with huge stated lengths: it has to cover the whole result."""
    out = []
    if e.name.startswith('__') or not e.ret.endswith('List'):
        return out
    P = [p for p in e.params if p != 'Ptr']
    es = 16 if e.ret == 'StringList' else (int(elem(e.ret)[1:]) // 8)
    for n in BIG:
        want = outlen(e, n)
        if want is None:
            return out

        def make(k):
            k.allocs.clear()
            args = []
            for i, (p, t) in enumerate(zip(P, e.cfunc.p)):
                if p == 'StringList':
                    args.append(k.list(t, [['x']], n))
                elif p.endswith('List'):
                    m = n // 8 + (n % 8 != 0) if e.name == 'IfByBitmap' and i == 0 else n
                    args.append(k.list(t, ['a%d' % i], m))
                elif p == 'String':
                    args.append(k.string(t, ['c']))
                else:
                    args.append(k.num(t, 'bcde'[i]))
            return args
        kw.sizing = True
        try:
            outs = kw.run(e, make, lambda k, r: 'returned', max_paths=50)
        finally:
            kw.sizing = False
        for o in outs:
            if o['kind'] == 'abort' and o['why'] == SIZED:
                got = kw.allocs[-1]
                out.append(('allocation-covers-result', '%s [%d elements]' % (inst, n), got >= want * es,
                            'requests %d bytes for a result of %d' % (got, want * es)))
    return out


def islen(e):
    """Whether an expression reads the length of a list or string (not behind another call or a comparison)."""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st += x
        elif isinstance(x, dict):
            if x.get('k') == 'mem' and x.get('t') is not None and not isinstance(x['t'], int) and x['t'].strip().k == 'int':
                o = x['o'].get('t') if isinstance(x.get('o'), dict) else None
                o = o.strip() if o is not None and not isinstance(o, int) else None
                if o is not None and o.k == 'ptr':
                    o = o.e.strip()
                if o is not None and o.k == 'rec' and o.s.endswith('Struct'):
                    return True
            if x.get('k') in ('mem', 'lambda', 'call', 'idx', 'sub', 'subscript'):
                continue
            if x.get('k') == 'bin' and x.get('op') in ('<', '>', '<=', '>=', '==', '!=', '&&', '||', '%', '&', '>>', '/'):
                continue
            if x.get('k') == 'cond':
                st += [x.get('a'), x.get('b')]
                continue
            st += [v for v in x.values() if isinstance(v, (dict, list))]
    return False


def narrow(t):
    t = t.strip() if t is not None and not isinstance(t, int) else None
    if t is None or t.k != 'int' or not t.w:
        return None
    return t


def widths(fn):
    """(line, what) of every counter or length copy in fn that cannot hold all positions of a 2^32-1 element list."""
    out = []
    n = 0
    st = [fn.body] + [i for i in fn.inits]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st += x
            continue
        if not isinstance(x, dict):
            continue
        k = x.get('k')
        if k == 'un' and x.get('op') in ('++', '--') and x['e'].get('k') in ('var', 'mem'):
            t = narrow(x['e'].get('t'))
            n += 1
            if t is not None and t.w < 32:
                out.append((x, 'counter of %d bits' % t.w))
        elif k == 'casg' and x.get('op') in ('+=', '-=') and x['a'].get('k') == 'var':
            t = narrow(x['a'].get('t'))
            n += 1
            if t is not None and t.w < 32 and islen(x['b']):
                out.append((x, 'length accumulated in %d bits' % t.w))
        elif k == 'cast' and not isinstance(x.get('t'), int) and islen(x.get('e')):
            t = narrow(x.get('t'))
            if t is not None:
                n += 1
                if t.w < 32 or t.w == 32 and t.sg:
                    out.append((x, 'length converted to %s' % t.s))
        st += [v for v in x.values() if isinstance(v, (dict, list))]
    return n, out


def calls(x, out, ints):
    """Functions named and integer literals written in a syntax tree."""
    st = [x]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st += x
        elif isinstance(x, dict):
            if x.get('k') == 'int' and isinstance(x.get('v'), int):
                ints.add(x['v'])
            f = x.get('f')
            if f is not None and hasattr(f, 'key'):
                out.add(f.key)
            st += [v for v in x.values() if isinstance(v, (dict, list))]


def thresholds(kw, e, top):
    """Lengths at which the code of a native function may change its way of working: the literals of its code and its callees."""
    seen, todo, ints = set(), [e.cfunc.key], set()
    while todo:
        k = todo.pop()
        fn = kw.p.funcs.get(k)
        if k in seen or getattr(fn, 'body', None) is None or fn.file.startswith('/'):
            continue
        seen.add(k)
        out = set()
        calls([fn.body] + list(fn.inits), out, ints)
        todo += out
    return sorted({m for v in ints if 17 <= v <= top for m in (v, v + 1)})


class KC(KW):
    def __init__(self):
        super().__init__()
        self.it.charterm_of = lambda c: tm.const(ord(c[1]), 8) if c[0] == '=' else tm.var(c, 8)
        self.it.hang_event = True
        self.nums = {}
        self.linted = set()
        for e in self.es:
            if e.kind == 'C' and e.cfunc is not None:
                for p, t in zip(e.params, e.cfunc.p):
                    if p in NUMS:
                        self.nums.setdefault(p, t)

    def ctype(self, n):
        return self.nums[n]

    def char_of(self, i):
        from .interp import charof
        return charof(self.it.mk(i, self.p.types['char']))

    def run_lookup(self, e, sc, state, post):
        """Build the table with its own registered function, then probe it."""
        b = [x for x in self.es if x.name == e.name.replace('Lookup', 'BuildLookup', 1) and x.params[:1] == e.params[:1] and x.kind == 'C']
        if not b:
            raise Broken('no table builder for %s' % e.sig())
        fb, fp = b[-1].cfunc, e.cfunc
        it = self.it
        it.nan = sc.nan

        def thunk():
            self.args = []
            lt = fp.p[0]
            a, y = [self.list(lt, d) for d in sc.args]
            et = it.unconst(self.fields(lt)[0].type.e)
            if e.params[0] == 'StringList':
                state['vals'] = [[[it.charterm_of(c) for c in s] for s in d] for d in sc.args]
            else:
                state['vals'] = [[it.term(self.val(v, et), et) for v in d] for d in sc.args]
            self.ctx = Cell(self.context())
            tab = it.call_fn(fb, None, [Cell(y), Cell(Ptr(self.ctx))])
            r = it.call_fn(fp, None, [Cell(a), Cell(rv(tab)), Cell(Ptr(self.ctx))])
            return post(self, r.v if isinstance(r, Cell) else r)
        return it.explore(thunk)


def work(i):
    e, deep = PICK[i]
    kw = KW0
    out = []
    inst = e.sig()
    scs = scenarios(e, deep)
    if scs is None:
        return i, [('specified', inst, False, 'native builtin outside the documented set')], 0, 0, None
    paths = n = 0
    try:
        for sc in scs:
            obs, m = one(kw, e, sc, inst)
            n += 1
            paths += m
            out += obs
        ls = sorted({300} | set(thresholds(kw, e, 5000 if deep else 1100)))
        for m in ls if deep else ls[-6:]:
            for sc in long_scenarios(e, m):
                obs, k = one(kw, e, sc, inst)
                n += 1
                paths += k
                out += obs
        out += sizing(kw, e, inst)
        for key in sorted(kw.it.visited_funcs - kw.linted):
            kw.linted.add(key)
            fn = kw.p.funcs.get(key)
            if fn is None or fn.file.startswith('/'):
                continue
            m, bad = widths(fn)
            if m:
                out.append(('lengths-keep-width', fn.q + '|' + key, not bad, bad[0][1] if bad else '', (fn.file, bad[0][0]['l'][1] if bad and 'l' in bad[0][0] else fn.line)))
        return i, out, paths, n, None
    except Broken as b:
        return i, out, paths, n, '%s: %s' % (inst, b)
    except Exception as x:          # a Python error is a limit of the analysis, reported as such
        import traceback
        tb = traceback.extract_tb(x.__traceback__)[-1]
        return i, out, paths, n, '%s: %s %s (%s:%d)' % (inst, type(x).__name__, x, os.path.basename(tb.filename), tb.lineno)


def entries(kw):
    """Effective native registrations, one per function and argument shape."""
    eff = {}
    for e in kw.es:
        eff[e.name, tuple(e.params)] = e
    seen = {}
    for e in eff.values():
        if e.kind != 'C' or e.name.startswith('__Build'):
            continue
        if e.cfunc is None:
            raise Broken('native function of %s unknown' % e.sig())
        seen.setdefault((e.name, e.cfunc.key, tuple(p for p in e.params if p != 'Ptr'), e.ret), e)
    return list(seen.values())


def sweep(ctx, families=None, rules=None):
    """Evaluate the native builtins of the families and record the obligations of the rules."""
    global KW0, PICK
    KW0 = KC()
    es = [e for e in entries(KW0) if families is None or family(e) in families]
    PICK = [(e, ctx.thorough) for e in es]
    if not PICK:
        raise Broken('no native builtin found')
    order = sorted(range(len(PICK)), key=lambda i: -weight(PICK[i][0]))
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(work, order, chunksize=1)
    res.sort()
    broken = []
    lint = {}
    paths = n = 0
    for i, obs, p, m, b in res:
        e = PICK[i][0]
        loc = where(KW0, e)
        paths += p
        n += m
        for o in obs:
            r, inst, ok, why = o[:4]
            if r == 'lengths-keep-width':
                lint[inst] = o
                continue
            if rules is None or r in rules or r == 'specified':
                ctx.ob(r, inst, ok, loc, why)
        if b:
            broken.append(b)
    ctx.stats['native functions'] = len(set(e.cfunc.key for e, _ in PICK))
    ctx.stats['registered shapes'] = len(PICK)
    ctx.stats['argument scenarios'] = n
    ctx.stats['explored partitions'] = paths
    for inst, o in sorted(lint.items()):
        if rules is None or o[0] in rules:
            ctx.ob(o[0], inst.split('|')[0], o[2], o[4], o[3])
    if broken:
        raise Broken('; '.join(broken[:4]) + (' (%d more)' % (len(broken) - 4) if len(broken) > 4 else ''))
    return es


def weight(e):
    n = e.name
    return (n.startswith('CastStringList') * 4 + n.startswith('Cast') + (n in ('CrossJoin', 'FindSorted', 'Bucketize', 'MurmurHash3X8632')) * 9 +
            n.startswith('__') * 6 + (n in ('Unique', 'GroupIndex', 'CountDistinct', 'Median', 'SortAsc', 'SortDesc')) * 7)


def where(kw, e):
    f = kw.p.funcs.get(e.cfunc.key)
    return (f.file, f.line) if f is not None else e.loc
