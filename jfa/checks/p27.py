"""Programs parse to exactly the tree the grammar denotes, everything else is rejected."""
import itertools
from .. import alang
from ..lang import *
from ..par import pmap

EXPLAIN = ('The committed lexer, parser (tables, skeleton and semantic actions) and tree builder are evaluated on the typed AST for systematically generated programs; '
           'the resulting tree is compared with the tree of an independent precedence parser, and rejection with the reference\'s verdict.')
ASSUME = ['programs of up to three binary operators per expression, one edit of a base program, all token sequences of length 3 (4 in the thorough tier)']
OPS = [o for l in alang.PREC for o in l]
UNS = ['-', '+', '~', 'not ']
BASE = [
    ('E', 'x = 1 + 2 * 3; y = if(x > 1, x, -x); f(y, [1, 2], "s") in g();'),
    ('E', 'let k = [1u8, 2u8, 3u8]; not (k in h(1.5, \'q\')) and true or false;'),
    ('E', 'switch(1, a(), b(2), c(1, 2)) << 2 >> 1 % 7 / 3 - 1;'),
    ('P', 'a = load(entry_arg, 0); store(output, 1, a | 2 ^ 3 & 4);'),
    ('P', 'a = 1; when a == 2 { a = 3; b = a; } elif a > 4 { let c = 1; f(c); } else { a = 5; } g(a);'),
    ('P', 'when 1 { when 2 { f(1); } } x = exec_ctx; when not true { 1; } elif 2 { 2; } elif 3 { 3; }'),
    ('P', 'let s = ["a", "b"]; t = [1.5, 2.5]; u = [1f32]; s; t; u;'),
]
ALPHA = ['1', 'a', '"s"', '2u8', '+', '-', 'not', 'in', '(', ')', '[', ']', ',', 'if', '=', 'let', ';', 'when', '{', '}', 'output']


SMALL = ['1', 'a', '-', '(', ')', '[', ',', 'if', '=', ';']


def programs(ctx):
    yield from big()
    yield from (('E', s) for s in ('1;', '"x";', 'true;', 'false;', '(1);', '((1));', 'f();', 'f(f(f()));', 'entry_arg;', 'exec_ctx;', 'output;'))
    for a, b in itertools.product(OPS, OPS):
        yield 'E', '1 %s 2 %s 3;' % (a, b)
        if a != b:
            yield 'E', '1 %s (2 %s 3);' % (a, b)
    reps = [l[i % len(l)] for i, l in enumerate(alang.PREC)]
    for t in itertools.product(reps[::2] if not ctx.thorough else OPS, repeat=3):
        yield 'E', '1 %s 2 %s 3 %s 4;' % t
    for u in UNS:
        for o in OPS:
            yield 'E', '%s1 %s 2;' % (u, o)
            yield 'E', '1 %s %s2;' % (o, u)
            yield 'E', '%s(1 %s 2);' % (u, o)
        for v in UNS:
            yield 'E', '%s %s 1;' % (u, v)
        yield 'E', '%sf(1) * %s[1, 2];' % (u, u)
    for head in ('f', 'if', 'switch', 'g1_X'):
        for n in range(0, 7):
            yield 'E', '%s(%s);' % (head, ', '.join(['1', '2 + 3', 'f(4)', '[5, 6]', '-7', '"8"'][:n]))
    for k, lits in [('I32', ['1', '2', '3']), ('F64', ['1.5', '2.', '.5']), ('STRING', ['"a"', "'b'", '""'])] + [
            (t, [x + t.lower() for x in ('1', '2', '3')]) for t in alang.NUMK]:
        for n in range(0, 4):
            yield 'E', '[%s];' % ', '.join(lits[:n])
        yield 'E', '[%s,];' % lits[0]
        yield 'E', '[%s, (%s)];' % (lits[0], lits[1])
        yield 'E', '[-%s];' % lits[0]
    kinds = ['1', '1.5', '"a"'] + ['1' + t.lower() for t in alang.NUMK]
    for a, b in itertools.product(kinds, kinds):
        yield 'E', '[%s, %s];' % (a, b)
    for src in ('', ';', '1', '1;;', '1 2;', '= 1;', 'a = ;', 'let a;', 'let 1 = 2;', 'let a = b = 1;', 'a == 1;', 'if(1);', 'if();', 'switch();', 'f(,);', 'f(1,);', 'f(1 2);',
                'when 1 { }', 'when 1 { 1 }', 'when { 1; }', 'when 1 { 1; };', 'elif 1 { 1; }', 'else { 1; }', 'when 1 { 1; } elif { 1; }', 'when 1 { 1; } else 2 { 1; }',
                '{ 1; }', '1 = 2;', 'f = 1; f(2);', 'in = 1;', 'a.b;', '(1;', '1);', '[1;', 'a[1];', '!1;', '!!1;', '1 && 2 || 3;', '1 <> 2;', '1 = = 2;', '< 1;', 'not;'):
        yield 'E', src
        yield 'P', src
    for forms in itertools.product(['f(1);', 'a = 2;', 'let b = 3;'], repeat=2):
        body = ' '.join(forms)
        yield 'P', body
        yield 'P', 'when 1 { %s }' % body
        for tail in ('elif 2 { g(); }', 'else { g(); }', 'elif 2 { g(); } elif 3 { h(); } else { i(); }', 'else { g(); } elif 2 { h(); }'):
            yield 'P', 'when 1 { %s } %s' % (body, tail)
        yield 'P', 'when f(2) in [1] { when 3 { %s } else { when 4 { %s } } } 5;' % (body, body)
    for seq in itertools.product(ALPHA if ctx.thorough else SMALL, repeat=3):
        yield 'P', ' '.join(seq) + ' ;'
    if ctx.thorough:
        for seq in itertools.product(ALPHA[:17], repeat=4):
            yield 'P', ' '.join(seq) + ' ;'
    for mode, src in BASE:
        toks = [t.text for t in alang.lex(src)[:-1]]
        for i in range(len(toks)):
            yield mode, ' '.join(toks[:i] + toks[i + 1:])
            yield mode, ' '.join(toks[:i] + [toks[i]] + toks[i:])
            if i + 1 < len(toks):
                yield mode, ' '.join(toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:])
            for r in (ALPHA if ctx.thorough else ALPHA[i % 4::4]):
                yield mode, ' '.join(toks[:i] + [r] + toks[i + 1:])
        yield mode, src


def big():
    """Programs far larger than usual: arguments, elements, operands, statements, branches, nesting."""
    for n in (20, 70):
        k = [str(i) for i in range(n)]
        yield 'E', 'f(%s);' % ', '.join(k)
        yield 'E', 'switch(%s);' % ', '.join(k + ['f(1)'])
        yield 'E', '[%s];' % ', '.join(k)
        yield 'E', '[%s];' % ', '.join(x + 'u16' for x in k)
        yield 'E', '[%s];' % ', '.join('%d.5' % i for i in range(n))
        yield 'E', '[%s];' % ', '.join('"s%d"' % i for i in range(n))
        yield 'E', '%s;' % ' - '.join(k)
        yield 'E', '%s;' % ' and '.join(k)
        yield 'E', '%s v%d;' % (' '.join('v%d = %d;' % (i, i) for i in range(n)), n - 2)
        yield 'E', 'v0 = 1; %s f(v%d, v1);' % (' '.join('v%d = g(%d, v%d);' % (i, i, i // 2) for i in range(1, n)), n - 1)
        yield 'P', ' '.join('f(%d);' % i for i in range(n))
        yield 'P', '%s f(v0, v%d);' % (' '.join('v%d = %d;' % (i, i) for i in range(n)), n - 1)
        yield 'P', 'when 1 { %s }' % ' '.join('a%d = %d;' % (i % 40, i) for i in range(n))
        yield 'P', 'a = 1; when 0 { f(0); } %s else { a = 2; } f(a);' % ' '.join('elif %d { f(%d); }' % (i, i) for i in range(1, n))
    for d in (12, 20):
        yield 'E', '%s1%s;' % ('(' * d, ')' * d)
        yield 'E', '%s1%s;' % ('f(2, ' * d, ')' * d)
        yield 'E', '%s1%s;' % ('-(1 + ' * d, ')' * d)
        yield 'E', '%s1;' % ('- ' * d)
        yield 'E', '%s1%s;' % ('if(1, 2, ' * d, ')' * d)
        yield 'P', 'a = 1; %sa = 2; f(a);%s f(a);' % (' '.join('when %d { b%d = a;' % (i, i) for i in range(d)), ' }' * d)


def reference(mode, src):
    try:
        return ('ok', alang.parse(src, mode))
    except alang.Reject as r:
        return ('reject', str(r))
    except alang.Unclaimed:
        return None


def compare(w, mode, src, spans=False):
    """None when the front end agrees with the reference, else what differs."""
    want = reference(mode, src)
    if want is None:
        return None
    got = w.build(src, mode)
    if got[0] == 'bad':
        return got[1]
    if want[0] == 'reject':
        if got[0] == 'ok':
            return 'accepted as %s, the language rejects it (%s)' % (got[1].show(), want[1])
        return None if got[1] == 'ParseError' else 'rejected with %s instead of ParseError' % got[1]
    if got[0] == 'reject':
        return 'rejected (%s), the language accepts it as %s' % (got[2], want[1].show())
    g, x = got[1].show(spans), want[1].show(spans)
    return None if g == x else 'tree %s instead of %s' % (g, x)


def decide(ctx, w, rule, progs, anchor, spans=False):
    seen = set()
    todo = []
    for m, s in progs:
        if (m, s) not in seen:
            seen.add((m, s))
            todo.append((m, s))
    f = w.p.fn(anchor)
    res = pmap(lambda x: compare(w, x[0], x[1], spans), todo)
    for (m, s), r in zip(todo, res):
        ctx.ob(rule, '%s: %s' % ('expression' if m == 'E' else 'pipeline', ' '.join(s.split())[:120]), r is None, (f.file, f.line), r)
    return len(todo)


def run(ctx):
    w = Lang()
    n = decide(ctx, w, 'tree', programs(ctx), A + 'Parser::parse')
    ctx.stats['programs'] = n
    ctx.need('tree', 3500)
