"""Variables of a program denote exactly the expression last assigned to them."""
import itertools
from .p27 import decide, big
from ..lang import *

EXPLAIN = ('The front end is evaluated on the typed AST for every sequence of assignments, let definitions and uses up to the bound, in both modes, with nested blocks in '
           'pipeline mode; the tree is compared with the tree of a reference that keeps an environment of the last assigned expressions.')
ASSUME = ['two variable names, up to three statements (four in the thorough tier), blocks nested up to two deep']


def thin(it):
    # names are interchangeable: keep the sequences whose first assignment is not to b alone
    return (t for t in it if not t[0].startswith(('b', 'let b')))


def programs(ctx):
    yield from (x for x in big() if '= ' in x[1])
    pre = ['', 'a = ', 'b = ', 'let a = ', 'let b = ']
    rhs = ['1', 'a', 'f(b) + a']
    st = ['%s%s;' % x for x in itertools.product(pre, rhs)]
    deep = st if ctx.thorough else [x for x in st if not x.endswith('1;')] + ['b = 1;', 'let a = 1;']
    for t in itertools.chain(itertools.product(st, repeat=1), itertools.product(st, repeat=2), itertools.product(deep, repeat=3) if ctx.thorough else thin(itertools.product(deep, repeat=3))):
        yield 'E', ' '.join(t)
    small = ['1;', 'a;', 'b = a + 2;', 'a = 3;', 'let a = 4;', 'a = -a;', 'let b = [5];']
    for t in itertools.product(small, repeat=4) if ctx.thorough else itertools.product(['a;', 'b = a + 2;', 'a = 3;', 'let b = -a;'], repeat=4):
        yield 'E', ' '.join(t)
    for n in (1, 2) + ((3,) if ctx.thorough else ()):
        for t in itertools.product(st, repeat=n):
            yield 'P', ' '.join(t)
    blk = ['a = 1;', 'b = a;', 'let c = b;', 'f(c);']
    for o, i1, i2, after in itertools.product(['', 'a = 0;', 'b = 0;', 'let c = 0;', 'a = 0; b = 1;'], blk, blk, blk):
        if not ctx.thorough and (i1 == i2 or o == 'b = 0;'):
            continue
        yield 'P', '%s when 1 { %s %s } %s' % (o, i1, i2, after)
        yield 'P', '%s when 1 { %s } elif 2 { %s } else { %s } %s' % (o, i1, i2, after, i1)
    for o, i1, i2, after in itertools.product(['', 'a = 0;', 'b = 0;'] if ctx.thorough else ['a = 0;'], blk, blk, blk):
        yield 'P', '%s when 1 { %s when a { %s } %s } f(a);' % (o, i1, i2, after)
    # every node form as an inlined definition
    for d in ('-1', '1 + 2', 'f(1, "x")', '[1, 2]', '["p", "q"]', '"s"', '1.5f32', 'if(1, 2, 3)', 'switch(1, 2)', 'entry_arg', 'exec_ctx', 'output', 'true', 'g()', '1 in [1]'):
        yield 'E', 'v = %s; v;' % d
        yield 'E', 'v = %s; w = f(v, -v, v + 1, if(v, v, v), switch(v, v)); v = w; w + v;' % d


def run(ctx):
    w = Lang()
    decide(ctx, w, 'variables', programs(ctx), A + 'ProgramAstBuilder::MakeRefNode')
    ctx.need('variables', 2000)
    # a builder is reusable: nothing of an earlier program, good or bad, is visible later
    f = w.p.fn(A + 'ProgramAstBuilder::BuildPipeline')
    first = [('E', 'a = 1; a;'), ('P', 'a = 1; b = 2;'), ('E', 'let a = 1; a = 2;'), ('E', 'zz;'), ('E', '1 +;'), ('E', '1 $;')]
    second = [('E', 'a;'), ('E', 'a = 5; a;'), ('P', 'a;'), ('P', 'a = 6; f(a);'), ('E', 'let a = 7; a;')]
    for (m1, s1), (m2, s2) in itertools.product(first, second):
        r = w.build_after([(s1, m1)], s2, m2)
        x = w.build(s2, m2)
        same = r[0] == x[0] and (r[0] != 'ok' or r[1].show(True) == x[1].show(True))
        ctx.ob('reuse', '%s then %s' % (s1, s2), same, (f.file, f.line), 'gives %s, a fresh builder gives %s' % (r[0], x[0]))
