"""Every reported source location is the span of the offending construct."""
import itertools
import re
from .p27 import compare, BASE
from .. import alang
from ..lang import *
from ..par import pmap

EXPLAIN = ('Programs laid out over several lines, with every kind of separator in every token gap, are taken through the typed AST of the front end; every node\'s recorded span is compared with the '
           'reference span, the messages of undefined variables, syntax errors and type errors with the location they must name, and Diagnostic::Render with a reference renderer.')
ASSUME = ['columns count bytes; a tab is one column', 'no claim on which of several errors of one program is reported']
SEPS = ['\n', '\t', '\r\n', '  ', '\n\n \n', '/* c */', '/* a\n b */', '/*\n*/', ' /* a\n\n  bcd */ ', '// x y\n', '//\n\n']
MORE = [
    ('E', 'f("a\nb", 1) + [ "x\n\n", "" ] ;'), ('E', 'v = "p\nq" ; w = - v ; g(w, v, \'\n\');'), ('E', '1;'), ('E', 'x = (1 + 2) * (3); ((x)) - (x);'),
    ('P', 'when a(1) in [1] { b = "\n"; c = b; } elif not 2 { output; } else { switch(1, 2) ; }'),
]


def layouts(ctx):
    for mode, src in BASE + MORE:
        toks = [t.text for t in alang.lex(src)[:-1]]
        yield mode, src
        for s in SEPS:
            yield mode, s.join(toks)
            yield mode, s + s.join(toks) + s
        gaps = len(toks) - 1
        for i in range(0, gaps, 1 if ctx.thorough else 3):
            for k, s in enumerate(SEPS):
                if ctx.thorough or (i // 3 + k) % 3 == 0:
                    yield mode, ' '.join(toks[:i + 1]) + s + ' '.join(toks[i + 1:])


def render(level, msg, src, span, notes, hints):
    """Reference rendering."""
    out = ['%s: %s' % (level, msg)]
    (bl, bc), (el, ec) = span
    if bl <= 0 or not src:
        return '\n'.join(out + ['  = note: ' + x for x in notes] + ['  = hint: ' + x for x in hints])
    lines = src.split('\n')
    g = len(str(min(el, len(lines))))
    out.append('  --> line %d, column %d' % (bl, bc))
    out.append(' ' + ' ' * g + ' |')
    for ln in range(bl, max(el, bl) + 1):
        if ln > len(lines):
            break
        text = lines[ln - 1]
        b = bc if ln == bl else 1
        e = max(b + 1, ec if ln == el else len(text) + 1)
        out.append(' %s | %s' % (str(ln).rjust(g), text))
        out.append(' %s | %s%s' % (' ' * g, ' ' * (b - 1), '^' * (e - b)))
    out += [' %s = note: %s' % (' ' * g, x) for x in notes] + [' %s = hint: %s' % (' ' * g, x) for x in hints]
    return '\n'.join(out)


def run(ctx):
    w = Lang()
    p = w.p
    loc = p.fn(A + 'ProgramAstBuilder::MakeRefNode')
    at = (loc.file, loc.line)

    def obs(rule, items, fn, where):
        items = list(dict.fromkeys(items))
        for x, r in zip(items, pmap(fn, items)):
            ctx.ob(rule, repr(x)[:140], r is None, where, r)

    # spans of nodes
    lex = p.fn('athena_yylex')
    obs('span', layouts(ctx), lambda x: compare(w, x[0], x[1], True), (lex.file, lex.line))
    ctx.need('span', 300)

    # undefined variables: the use is named and drawn
    def undef(x):
        mode, pre, use, post = x
        src = pre + use + post
        b = alang.advance((1, 1), pre)
        want = render('error', "variable '%s' is not defined" % use, src, (b, alang.advance(b, use)), (), ())
        got = w.build(src, mode)
        return None if got[0] == 'reject' and got[2] == want else 'reports %r instead of %r' % (got[-1], want)
    pres = ['', '1 + ', 'x = 1;\n  x * ', '/* a\nbc */ ', '"a\nb" + ', '\n\n\tf(1,\n', '// v\nx = 2; f(x,', 'let s = "\n";\r\n s - ']
    obs('undefined', [(m, a, u, ')' * (a.count('(')) + z) for m in 'EP' for a in pres for u in ('v', 'long_name9') for z in (';', '\n;', ' + 1;', '\n+ 2;\n3;')], undef, at)

    # syntax errors: the first token that no valid program continues with
    perr = p.fn(A + 'Parser::error', pred=lambda f: len(f.decl.p) == 2)

    def syntax(x):
        mode, src = x
        try:
            alang.parse(src, mode)
            return None
        except alang.Reject as r:
            t = r.tok
        if t is None:
            return None
        got = w.build(src, mode)
        if got[0] != 'reject':
            return 'not rejected but %s' % got[0]
        m = re.match(r'(\d+)\.(\d+)(?:-(?:(\d+)\.)?(\d+))?: ', got[2][len(src) + 1:] if got[2].startswith(src + ':') else got[2])
        if not m:
            return 'no location in %r' % got[2]
        b = (int(m.group(1)), int(m.group(2)))
        # the end is printed inclusive
        e = (int(m.group(3) or b[0]), int(m.group(4) or b[1]) + 1)
        want_e = t.e if t.e != t.b else (t.b[0], t.b[1] + 1)
        if t.e[1] == 1 and t.e != t.b:
            return None
        return None if (b, e) == (t.b, want_e) else 'names %s-%s, the offending token %r is at %s-%s' % (b, e, t.text, t.b, t.e)
    bads = []
    for mode, src in BASE:
        toks = [t.text for t in alang.lex(src)[:-1]]
        for i in range(0, len(toks), 1 if ctx.thorough else 2):
            s = SEPS[i % len(SEPS)]
            bads.append((mode, ' '.join(toks[:i]) + s + ' '.join(toks[i + 1:])))
            bads.append((mode, ' '.join(toks[:i]) + s + ALPHA[i % len(ALPHA)] + s + ' '.join(toks[i + 1:])))
    bads += [(m, s) for m in 'EP' for s in ('', ' \n', '1', '1\n', '1 /* \n */', '"a\nb" 2;', '1 "a\nb";', 'f(\n1,\n;', '[1,\n"a"];', '[\n', 'let\nx\n1;', 'x = \n\n;')]
    obs('syntax', bads, syntax, (perr.file, perr.line))
    ctx.need('syntax', 60)

    # characters that start no token
    def invalid(x):
        pre, c = x
        got = w.build(pre + c + ' 1;', 'E')
        b = alang.advance((1, 1), pre)
        tail = ':%d.%d: ' % b
        return None if got[0] == 'reject' and tail in got[2][len(pre):] else 'reports %r, the character is at %d.%d' % ((got[-1],) + b)
    obs('invalid', [(a, c) for a in ('', '1 +\n', '/* a\n\n b*/ ', '"x\ny" + ', 'x = 1;\r\n\tx * ') for c in '$@#\\?`'], invalid, (lex.file, lex.line))

    # type errors: the construct whose operands do not fit
    v = p.fn(NS + 'Validator::Validate')

    def offending(x):
        mode, pre, use, post = x
        src = pre + use + post
        b = alang.advance((1, 1), pre)
        (bl, bc), (el, ec) = (b, alang.advance(b, use))
        want = render('error', 'M', src, ((bl, bc), (el, ec)), (), ()).split('\n')[1:]
        got = w.validate(src, mode)
        if got[0] != 'reject':
            return 'not rejected by the validator but %s %s' % (got[0], got[-1])
        n = len(got[2].split('\n')) - len(want)
        return None if got[2].split('\n')[-len(want):] == want and n >= 1 else 'reports %r instead of location %r' % (got[2], want)
    wrong = ['1 + "a"', '"a" - "b"', '-"x"', '~1.5', '1.5 | 2', 'if(1, 2)', 'if(`"c"`, 1, 2)', 'if(1, 2, "x")', 'switch(1, 2)', 'switch(1, 2, `"c"`, 1, 2)', 'switch(`"c" + "d"`, 1, 2)', 'switch(1, "x", 2)', '1 / 0', '5 %\n0', 'nofunc(1)',
             '1 < "a"', '"a" and 1', 'not "a"', '[1] + 2', '1 in `nofunc2()`', 'if(1,\n 2,\n "x")', '"a\nb" *\n2']
    around = [('E', '', ';'), ('E', '\n ', '\n;'), ('E', '/*\n\n*/ 7 + (', ') * 2;'), ('E', 'x = ', '; x;'), ('E', 'if(1, 2,\n', ');'), ('P', 'x = 1;\ny = ', ';'), ('P', 'when 1 {\n z = ', '; }'),
              ('P', 'when 1 { 1; }\nelif (', ') { 2; }'), ('P', 's = "a\nb"; ', ';'), ('P', 'f(output, ', ');')]
    items = []
    for k, u in enumerate(wrong):
        for j, (m, a, z) in enumerate(around):
            b, use, c = u.split('`') if '`' in u else ('', u, '')
            if (m, a) == ('E', 'x = '):
                # an inlined definition is reported at the use
                items.append((m, 'x = %s;\n 1;\n  ' % u.replace('`', ''), 'x', ';') if not b else (m, 'y = 1;\n ' + b, use, c + ';'))
            else:
                items.append((m, a + b, use, c + z))
    items += [('P', 'when 1 { 1; }\n elif ', '"s"', ' { 2; }'), ('P', 'x = 1;\nwhen x {\n  when ', "'t'", ' { 2; } }'), ('P', 'when 1 { 1; } elif 2 { } else {'[:14] + ' elif\n\n', '"a" + "b"', '{ 1; }')]
    obs('offending', items, offending, (v.file, v.line))
    ctx.need('offending', 150)

    # Diagnostic::Render
    rf = p.fn(NS + 'Diagnostic::Render')
    srcs = ['', 'abc', 'a\nbb\nccc', '\n', 'x\n\ny\n', '\n'.join('l%d' % i for i in range(12)), 'one\r\ntwo']
    grid = []
    for s in srcs:
        n = s.count('\n') + 1
        ls = s.split('\n')
        spots = [(l, c) for l in sorted({1, 2, n - 1, n, 9, 10} & set(range(1, n + 1))) for c in sorted({1, 2, len(ls[l - 1]), len(ls[l - 1]) + 1} - {0})]
        for b, e in itertools.product(spots, spots):
            if e >= b:
                grid.append((s, (b, e)))
        grid.append((s, ((0, 0), (0, 0))))
    cases = [(lv, s, sp, k) for s, sp in grid for lv, k in ((('error', 0), ('warning', 3)) if ctx.thorough or len(s) < 12 else (('error', 3),))]

    def rend(x):
        lv, s, sp, k = x
        notes, hints = ('n1', 'second')[:k and 2], ('h',)[:k and 1]
        want = render(lv, 'msg', s, sp, notes, hints)
        got = w.render(lv, 'msg', s, sp, notes, hints)
        return None if got == want else 'renders %r instead of %r' % (got, want)
    obs('render', cases, rend, (rf.file, rf.line))
    ctx.need('render', 200)


ALPHA = ['+', ')', ']', ',', '=', '}', 'let', 'in', ';', '{', 'when', 'elif', '1', '"a\nb"']
