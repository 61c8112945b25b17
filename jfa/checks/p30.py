"""Fusing pipelines only groups them: each is compiled once, whole, isolated, in order."""
import itertools
from .. import alang
from ..lang import *
from ..par import pmap

EXPLAIN = ('AthenaPipeline::Compile is evaluated on the typed AST (tree builder replaced by parsed trees or a failure, engine compile captured) for every sequence of pipelines from a pool; '
           'the captured entries are compared with the partition by shared inputs computed from the trees.')
ASSUME = ['at most four pipelines in the quick tier, six in chains of shared inputs, five selected sets of up to 140', 'the 64-bit text hash of the grouper does not collide on distinct pool subtrees (evaluated, not assumed, for the pool)']
POOL = [
    'store(output, 1, load(entry_arg, 1));',
    'store(output, 2, load(entry_arg, 1));',
    'store(output, 3, load(entry_arg, 2) + load(entry_arg, 1));',
    'store(output, 4, load(entry_arg, 2));',
    'a = load(entry_arg, 3); store(output, 5, a);',
    'a = fetch(entry_arg, 3); store(output, 6, a);',
    'when load(entry_arg, 3) { b = load(entry_arg, 4); store(output, 7, b); } else { store(output, 8, switch(not 1, f([2], -x9(exec_ctx)))); }',
    'store(output, 9, if(load(entry_arg, 4), "p", "q"));',
    'b = x9(exec_ctx); b = b + 1; b; store(output, 1.5, b);',
    'let a = load(entry_arg, 33); store(output, 10, a);',
    '1;',
    'a = 1; a;',
]
NAMED = len(POOL)
# pipelines that only say which inputs they share, in which order they are met
LINKS = {(i,): 'f(entry_arg, %d);' % i for i in range(8)}
LINKS.update({(i, j): 'g(f(entry_arg, %d), f(entry_arg, %d));' % (i, j) for i in range(8) for j in range(8) if i != j})
LINKNO = {k: NAMED + n for n, k in enumerate(LINKS)}
POOL += list(LINKS.values())

# pairs that compute alike from variables with different inputs: nothing is shared
ALIKE = ['1 + a', 'a + 1', 'a * a', 'not a', '-a', 'f(1, a)', 'f(a, 1)', 'f(1, a, 2)', 'f(entry_arg, a)', 'f(a, entry_arg)', 'f([1], f(a, 2))', '(1 + a) - 2', '2 - (a + 1)',
         'if(a, 1, 2)', 'if(1, a, 2)', 'if(1, 2, a)', 'switch(a, 1, 2)', 'switch(1, a, 2)', 'switch(1, 2, a)', 'switch(1, 2, a, 4, 5)', 'switch(1, 2, 3, 4, a)', 'a and 1', '1 or a', 'a in [1, 2]', 'a']
ALIKEW = ALIKE[:1] + ALIKE[5:7] + ALIKE[13:16] + ALIKE[-1:]
ALIKEP = [(len(POOL) + 2 * i, len(POOL) + 2 * i + 1) for i in range(len(ALIKE) + len(ALIKEW))]
for f_ in ALIKE:
    POOL += ['a = load(entry_arg, %d); b = %s;' % (k, f_) for k in (5, 6)]
for f_ in ALIKEW:
    POOL += ['a = load(entry_arg, %d); when 1 { %s; } elif a { store(output, 1, a); } else { st(a, 1); }' % (k, f_) for k in (5, 6)]


def histories(length):
    """Every sequence of pipelines with one or two inputs each, up to renaming of the inputs."""
    def go(seq, seen):
        if len(seq) == length:
            yield tuple(LINKNO[s] for s in seq)
            return
        for i in range(seen + 1):
            yield from go(seq + [(i,)], max(seen, i + 1))
            for j in range(max(seen, i + 1) + 1):
                if i != j:
                    yield from go(seq + [(i, j)], max(seen, i + 1, j + 1))
    return list(go([], 0))


def refs(n, out=None):
    """Texts of the one-level subtrees."""
    def height(x):
        if x.kind == 'Ref':
            return 2
        if x.kind in ('Const', 'ConstList', 'EntryArgument', 'ExecContext', 'Output'):
            return 0
        h = max([height(k) for k in x.kids] + [0]) + 1
        if h == 1:
            out.add((x.kind, x.show()))
        return h
    out = set() if out is None else out
    height(n)
    return out


def partition(idx, leaves):
    groups = []
    for pos, i in enumerate(idx):
        hit = [g for g in groups if any(leaves[i] & leaves[idx[q]] for q in g)]
        for g in hit:
            groups.remove(g)
        groups.append(sorted(sum(hit, []) + [pos]))
    return sorted(groups)


def run(ctx):
    w = Lang()
    p, it = w.p, w.it
    gf = p.fn(A + 'PipelineGrouper::Group')
    cf = p.fn(A + 'AthenaPipeline::Compile')
    at = (gf.file, gf.line)
    trees = [alang.parse(s, 'P') for s in POOL]
    leaves = [refs(t) for t in trees]
    COPIES = 3
    parsed = []
    for s in POOL:
        row = []
        for _ in range(COPIES if len(parsed) < ALIKEP[0][0] else 1):
            def thunk():
                b = Cell(w.new(A + 'ProgramAstBuilder'))
                res = Cell(UPtr(None))
                st = w.call(A + 'ProgramAstBuilder::BuildPipeline', b, Cell(s), Ptr(res))
                return w.status(st), res.v
            r = it.explore(thunk)
            if len(r) != 1 or r[0]['kind'] != 'ret' or r[0]['ret'][0] != 'OK':
                ctx.ob('compile', s, False, (cf.file, cf.line), 'the pipeline is rejected: %s' % (r[0].get('ret'),))
                return
            row.append(r[0]['ret'][1].p)
        parsed.append(row)
    shown = {id(q.target().v): (i, c, trees[i].show()) for i, row in enumerate(parsed) for c, q in enumerate(row)}

    sent = {}

    def build(it, fd, this, a, e):
        k = sent['k']
        sent['k'] += 1
        if k == sent['fail']:
            return w.fail('ParseError')
        if strval(it, a[0]) != POOL[sent['idx'][k]]:
            raise Broken('pipeline text %d is not handed to the builder in order' % k)
        c = sum(1 for j in sent['idx'][:k] if j == sent['idx'][k])
        a[1].target().v = UPtr(parsed[sent['idx'][k]][c])
        return w.ok()

    def compile_(it, fd, this, a, e):
        sent['calls'].append((list(rv(a[0]).c), rv(a[1])))
        return w.fail('RuntimeError') if sent['engine'] else w.ok()
    it.override[A + 'ProgramAstBuilder::BuildPipeline'] = build
    it.override[NS + 'BatchExecEngine::Compile'] = compile_

    def compiled(idx, fail=None, engine=False):
        sent.clear()
        sent.update(k=0, idx=idx, fail=fail, engine=engine, calls=[])

        def thunk():
            sent.update(k=0, calls=[])
            o = w.new(A + 'AthenaPipeline', w.new('ExecEngineOption') if not hasattr(w, 'opt0') else w.opt0, pred=lambda d: len(d.p) == 1 and d.p[0].strip().s.endswith('ExecEngineOption'))
            regp = UPtr(None)
            code = w.vec([POOL[i] for i in idx])
            st = w.call(A + 'AthenaPipeline::Compile', Cell(o), Cell(code), Cell(regp))
            return w.status(st), list(sent['calls']), regp
        return it.explore(thunk)

    def judge(idx):
        rs = compiled(idx)
        if len(rs) != 1 or rs[0]['kind'] != 'ret':
            return 'does not return: %s' % [(r['kind'], r.get('why')) for r in rs]
        bad = [e for e in rs[0]['events'] if e['kind'] in ('oob', 'nullderef', 'malformed', 'uninit')]
        if bad:
            return '%s %s' % (bad[0]['kind'], bad[0].get('what'))
        st, calls, regp = rs[0]['ret']
        if st != 'OK' or len(calls) != 1:
            return 'gives %s after %d engine compiles' % (st, len(calls))
        if calls[0][1] is not regp:
            return 'another registry reaches the engine'
        groups = []
        seen = []
        for c in calls[0][0]:
            o = w.target(c.v)
            if not isinstance(o, Obj) or o.cls.q != NS + 'NoOPNode':
                return 'an entry is %r, not a NoOP of pipelines' % (o,)
            if not w.get(o, 'IsIsolated'):
                return 'the pipelines of an entry share their variables'
            if any(v.v.f['name'].v or v.v.f['is_const'].v for v in w.get(o, 'GetVarInfos').c):
                return 'an entry assigns a variable'
            g = []
            for a in w.get(o, 'GetArgs').c:
                k = shown.get(id(w.target(a.v)))
                if k is None:
                    t = w.tree(a.v).show()
                    m = [i for i in range(len(trees)) if trees[i].show() == t and i in idx]
                    if not m:
                        return 'an entry holds %s, which is no pipeline' % t[:200]
                    used = sum(1 for s in seen if s[0] == m[0])
                    k = (m[0], used, t)
                elif w.tree(a.v).show() != k[2]:
                    return 'pipeline %r became %s' % (POOL[k[0]], w.tree(a.v).show()[:200])
                pos = [n for n, i in enumerate(idx) if i == k[0]]
                seen.append(k[:2])
                g.append(pos[k[1]] if k[1] < len(pos) else -1)
            groups.append(g)
        if any(g != sorted(g) for g in groups):
            return 'order within an entry changed: %s' % groups
        if sorted(sum(groups, [])) != list(range(len(idx))):
            return 'pipelines compiled: %s of %d' % (sorted(sum(groups, [])), len(idx))
        want = partition(idx, leaves)
        return None if sorted(groups) == want else 'entries %s instead of %s' % (sorted(groups), want)

    n = NAMED
    work = [()] + [(i,) for i in range(n)] + list(itertools.product(range(n), repeat=2)) + [t for t in itertools.product(range(n), repeat=3) if max(t.count(x) for x in t) <= COPIES]
    work += list(itertools.permutations([0, 3, 2, 7])) + list(itertools.permutations([4, 6, 7, 5])) + [(0, 4, 1, 7, 6, 2), (6, 5, 4, 3, 2, 1), (0, 0, 0, 1), (10, 11, 10, 8), (4, 9, 8, 6, 0, 7), (2, 0, 5, 3, 8, 6)]
    four = [h for h in histories(4) if max(h.count(x) for x in h) <= COPIES]
    work += [h for k in (2, 3) for h in histories(k)] + (four if ctx.thorough else four[::7])
    big = [tuple(range(len(POOL))), tuple(range(len(POOL) - 1, -1, -1)), tuple(range(NAMED, NAMED + 8)) + tuple(a for a, b in ALIKEP), tuple((7 * i) % 37 + NAMED for i in range(37)), tuple(range(NAMED + 8, NAMED + 64, 3))]
    work += big
    work += [t for a, b in ALIKEP for t in ((a, b), (b, 0, a))]
    if ctx.thorough:
        work += list(itertools.combinations(range(n), 4)) + list(itertools.combinations(range(n - 1, -1, -1), 5)) + list(itertools.permutations([0, 3, 2, 4, 6]))
    for idx, r in zip(work, pmap(judge, work)):
        ctx.ob('group', 'pipelines %s' % (idx if len(idx) < 9 else '%d: %s ...' % (len(idx), idx[:8]),), r is None, at, r)
    ctx.need('group', 1000)

    # a rejected pipeline or engine failure is reported, nothing else is compiled
    for m in range(1, 4):
        for fail in list(range(m)) + [None]:
            idx = tuple((0, 4, 8)[:m])
            rs = compiled(idx, fail, fail is None)
            ok = len(rs) == 1 and rs[0]['kind'] == 'ret' and rs[0]['ret'][0] == ('RuntimeError' if fail is None else 'ParseError') and len(rs[0]['ret'][1]) == (fail is None)
            ctx.ob('failure', '%d pipelines, %s' % (m, 'the engine fails' if fail is None else 'number %d is rejected' % fail), ok, (cf.file, cf.line), 'gives %s' % (rs[0].get('ret', (rs[0].get('why'),))[:1],))
