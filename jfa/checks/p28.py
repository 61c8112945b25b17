"""Source text is split into exactly the documented tokens; literals have the written type and value."""
import itertools
from .. import alang
from ..lang import *
from ..par import pmap

EXPLAIN = ('The scanner tables are extracted from the typed AST and compared with the documented token definitions as automata, for inputs of any length; the scanner itself '
           '(matching loop and actions) is evaluated on every pair of adjacent tokens and on boundary literals and compared token by token with a reference scanner.')
ASSUME = ['texts without NUL bytes; literals whose value fits their type or exceeds 64 bits (anything between is not claimed)', 'string to number conversion of the standard library is exact']
# token kinds of the grammar, by symbol_kind enumerator
SYM = {'S_LET': 'let', 'S_WHEN': 'when', 'S_IF': 'if', 'S_ELIF': 'elif', 'S_ELSE': 'else', 'S_SWITCH': 'switch', 'S_IN': 'in', 'S_NOT': 'not', 'S_AND': 'and', 'S_OR': 'or',
       'S_TRUE': 'true', 'S_FALSE': 'false', 'S_MINUS': '-', 'S_PLUS': '+', 'S_STAR': '*', 'S_SLASH': '/', 'S_LPAREN': '(', 'S_RPAREN': ')', 'S_MODOLO': '%',
       'S_BITWISE_OR': '|', 'S_BITWISE_XOR': '^', 'S_BITWISE_AND': '&', 'S_BITWISE_NOT': '~', 'S_BITWISE_LEFT': '<<', 'S_BITWISE_RIGHT': '>>', 'S_EQUAL': '==',
       'S_ASSIGNMENT': '=', 'S_NOT_EQUAL': '!=', 'S_LESS_THAN': '<', 'S_LESS_THAN_OR_EQUAL_TO': '<=', 'S_GREATER_THAN': '>', 'S_GREATER_THAN_OR_EQUAL_TO': '>=',
       'S_COMMA': ',', 'S_LBRACKET': '[', 'S_RBRACKET': ']', 'S_SEMI': ';', 'S_LBRACE': '{', 'S_RBRACE': '}', 'S_ENTRY_ARG': 'entry_arg', 'S_EXEC_CTX': 'exec_ctx',
       'S_OUTPUT': 'output', 'S_IDENTIFIER': 'ID', 'S_STRING': 'STRING', 'S_YYEOF': 'EOF'}
SYM.update(('S_' + k, k) for k in alang.NUMK)


class Scan(Lang):
    def __init__(self):
        Lang.__init__(self)
        self.it.override[A + 'Parser::parse'] = self.collect
        self.lexer = self.p.fn('athena_yylex')
        self.kinds = self.p.enum(A + 'Parser::symbol_kind::symbol_kind_type')['vals']
        self.out = None

    def collect(self, it, fd, this, a, e):
        f = this.v.f
        refs = {n: c for n, c in f.items()}
        scanner, builder = refs['scanner'], refs['builder']
        self.out = []
        for _ in range(400):
            try:
                s = it.run_fn(self.lexer, None, [it.load(scanner), builder])
            except CxxThrow as t:
                if t.ty is not None and t.ty.strip().s.endswith('syntax_error'):
                    self.out.append(('ERROR', None, None))
                    return 1
                raise
            s = it.load(s) if isinstance(s, Cell) else s
            k = s.f['kind_'].v
            name = self.kinds.get(k, '?%r' % k)
            v = s.f['value'].v.x
            loc = s.f['location'].v
            pos = tuple((loc.f[n].v.f['line'].v, loc.f[n].v.f['column'].v) for n in ('begin', 'end'))
            self.out.append((SYM.get(name, name), v.v if v is not None and v.v is not UNINIT else None, pos))
            if name == 'S_YYEOF':
                break
        return 1

    def scan(self, src):
        def thunk():
            self.out = None
            b = Cell(self.new(A + 'ProgramAstBuilder'))
            st = self.call(A + 'ProgramAstBuilder::BuildExpression', b, Cell(src), Ptr(Cell(UPtr(None))))
            return self.status(st)
        rs = self.it.explore(thunk)
        r = rs[0]
        bad = [e for e in r['events'] if e['kind'] in ('oob', 'nullderef', 'malformed')]
        if len(rs) != 1 or bad:
            return ('bad', '%d outcomes, %s' % (len(rs), bad[:1]))
        if r['kind'] == 'throw':
            return ('bad', 'an exception escapes')
        # tokens collected, or the status when scanning stopped early (out of range literal)
        return ('ok', list(self.out or []), r.get('ret'), r['kind'])


def ref(src):
    try:
        return [(t.kind, t.value, (t.b, t.e)) for t in alang.lex(src)]
    except alang.Reject:
        return None


def check(w, src, spans):
    try:
        want = ref(src)
    except alang.Unclaimed:
        return None
    got = w.scan(src)
    if got[0] == 'bad':
        return got[1]
    toks = got[1]
    if want is None:
        if toks and toks[-1][0] == 'EOF':
            return 'accepted as %s' % ([t[:2] for t in toks],)
        return None if toks and toks[-1][0] == 'ERROR' or got[2] == 'ParseError' else 'not rejected with ParseError but %s' % (got[2],)
    n = 3 if spans else 2
    g = [t[:n] for t in toks]
    x = [t[:n] for t in want]
    return None if g == x and all(type(a[1]) is type(b[1]) for a, b in zip(g, x)) else 'tokens %s instead of %s' % (g, x)


# ---- automata ----
NAMES = ('yy_accept', 'yy_ec', 'yy_meta', 'yy_base', 'yy_def', 'yy_nxt', 'yy_chk')


def tables(w):
    """Scanner tables by name, from their initialisers."""
    if any(n not in w.p.globals for n in NAMES):
        return None
    r = w.it.explore(lambda: {n: [c.v for c in w.it.global_var(n).v.c] for n in NAMES})
    return r[0]['ret']


class Nfa:
    """Reference token definitions as one automaton (derivatives of Python's parsed regexes)."""

    def __init__(self, rules):
        self.eps = {}
        self.tr = {}
        self.n = 0
        self.acc = {}
        self.start = self.state()
        for i, (k, rx) in enumerate(rules):
            import re._parser as sp
            s, e = self.frag(sp.parse(rx))
            self.eps.setdefault(self.start, []).append(s)
            self.acc[e] = i

    def state(self):
        self.n += 1
        return self.n

    def edge(self, a, cs, b):
        self.tr.setdefault(a, []).append((cs, b))

    def cls(self, items):
        neg = False
        s = set()
        for op, av in items:
            op = str(op)
            if op == 'NEGATE':
                neg = True
            elif op == 'LITERAL':
                s.add(av)
            elif op == 'RANGE':
                s |= set(range(av[0], av[1] + 1))
        return frozenset(range(1, 256)) - s if neg else frozenset(s)

    def frag(self, items):
        s = cur = self.state()
        for op, av in items:
            o = str(op)
            if o in ('LITERAL', 'NOT_LITERAL', 'ANY', 'IN'):
                cs = {'LITERAL': lambda: frozenset([av]), 'NOT_LITERAL': lambda: frozenset(range(1, 256)) - {av},
                      'ANY': lambda: frozenset(range(1, 256)) - {10}, 'IN': lambda: self.cls(av)}[o]()
                n = self.state()
                self.edge(cur, cs, n)
                cur = n
            elif o == 'MAX_REPEAT':
                lo, hi, sub = av
                for _ in range(lo):
                    a, b = self.frag(sub)
                    self.eps.setdefault(cur, []).append(a)
                    cur = b
                if str(hi) == 'MAXREPEAT':
                    a, b = self.frag(sub)
                    n = self.state()
                    self.eps.setdefault(cur, []).extend([a, n])
                    self.eps.setdefault(b, []).extend([a, n])
                    cur = n
                elif hi != lo:
                    raise Broken('repeat')
            elif o == 'SUBPATTERN':
                a, b = self.frag(av[3])
                self.eps.setdefault(cur, []).append(a)
                cur = b
            elif o == 'BRANCH':
                n = self.state()
                for alt in av[1]:
                    a, b = self.frag(alt)
                    self.eps.setdefault(cur, []).append(a)
                    self.eps.setdefault(b, []).append(n)
                cur = n
            else:
                raise Broken('regex %s' % o)
        return s, cur

    def close(self, st):
        todo, seen = list(st), set(st)
        while todo:
            for x in self.eps.get(todo.pop(), []):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return frozenset(seen)

    def step(self, st, c):
        return self.close({b for a in st for cs, b in self.tr.get(a, []) if c in cs})

    def rule(self, st):
        r = [self.acc[s] for s in st if s in self.acc]
        return min(r) if r else None


def flex_step(t, st, c):
    """(next state, jammed) of the table-driven scanner."""
    k = t['yy_ec'][c]
    n = 0
    while t['yy_chk'][t['yy_base'][st] + k] != st:
        st = t['yy_def'][st]
        if st >= len(t['yy_accept']):
            k = t['yy_meta'][k]
        n += 1
        if n > 500:
            raise Broken('scanner tables loop')
    return t['yy_nxt'][t['yy_base'][st] + k]


def automata(ctx, w):
    t = tables(w)
    if t is None:
        ctx.note('scanner tables not found in flex form: token definitions decided on the evaluated texts only')
        return
    jam = len(t['yy_accept']) - 1
    refrules = [('tok:' + k, k) for k in sorted(alang.KEY)]
    for k, r in alang.RULES:
        t_ = r.replace('\\', '')
        refrules.append(('tok:' + alang.ALIAS.get(t_, t_) if k == 'punct' else k, r))
    # the definitions' own names: what a rule produces
    nfa = Nfa(refrules)
    pair = {}
    back = {}
    start = (1, nfa.close({nfa.start}))
    seen = {start: ''}
    todo = [start]
    f = w.lexer
    n = 0
    default = None
    while todo:
        s = todo.pop()
        word = seen[s]
        for c in range(1, 256):
            a = flex_step(t, s[0], c) if s[0] != jam else jam
            b = nfa.step(s[1], c)
            n += 1
            ra = t['yy_accept'][a] if a != jam else 0
            rb = nfa.rule(b)
            if ra and rb is None and word == '' and not b:
                # one-character default rule: no token starts here
                default = default or ra
            name = refrules[rb][0] if rb is not None else None
            if rb is None and ra == default:
                ra = 0
            if ra or name:
                # one produced kind per scanner rule
                if pair.setdefault(ra, name) != name:
                    ctx.ob('automaton', 'text %r' % (word + chr(c)), False, (f.file, f.line), 'is matched as %s where %s is' % (name, pair[ra]))
                    return
            if (a == jam) != (not b) and ra != default and not (a != jam and not b and t['yy_accept'][a] == default):
                ctx.ob('automaton', 'text %r' % (word + chr(c)), False, (f.file, f.line), 'the scanner %s while a token %s' % (
                    'stops' if a == jam else 'continues', 'can continue' if b else 'cannot'))
                return
            if a == jam or not b:
                continue
            if (a, b) not in seen:
                seen[(a, b)] = word + chr(c)
                todo.append((a, b))
    ctx.ob('automaton', '%d state pairs, %d transitions, %d rules' % (len(seen), n, len(pair)), True, (f.file, f.line))
    ctx.stats['automaton'] = {'state_pairs': len(seen), 'transitions': n, 'rules': len(pair)}


REPS = ['let', 'when', 'if', 'elif', 'else', 'switch', 'in', 'not', 'and', 'or', 'true', 'false', 'entry_arg', 'exec_ctx', 'output', 'x', 'Ab_9', 'iff', 'lets', 'in_', 'nott',
        '7', '1u8', '2u16', '3u32', '4u64', '5i8', '6i16', '7i32', '8i64', '1.5', '2.', '.5', '1.5f32', '.5f64', '3f32', '4f64', '"a"', "'b'", '""', '"/*"', "'//'", '"\'"',
        '// c\n', '/* d */', '/***/', '/* * / **/', ' ', '\t', '\n', '\r\n'] + alang.PUNCT


def texts(ctx):
    for a in REPS:
        yield a
    for a, b in itertools.product(REPS, REPS):
        yield a + b
    sub = REPS if ctx.thorough else ['in', 'x', '7', '1u8', '.5', '"a"', '/', '*', '<', '=', '// c\n']
    for t in itertools.product(sub[:40], repeat=3):
        yield ''.join(t)
    for w_ in (8, 16, 32, 64):
        for s in 'ui':
            suf = '%s%d' % (s, w_)
            for v in (0, 1, 2, 9, 10, 99, (1 << (w_ - 1)) - 1, 1 << (w_ - 1), (1 << w_) - 1, 1 << w_, (1 << 64) - 1, 1 << 64, 10 ** 30):
                yield '%d%s' % (v, suf)
            yield '007' + suf
            yield '0' * 30 + '5' + suf
    for v in (0, 1, 9, 10, 2 ** 31 - 1, 2 ** 64, 10 ** 40):
        yield str(v)
    for body in ('0', '1', '0.0', '.0', '0.', '1.0', '0.1', '3.14159265358979', '2.718281828459045235360287', '16777217', '16777217.0', '33554435.', '9007199254740993',
                 '9007199254740993.0', '0.30000000000000004', '340282346638528859811704183484516925440', '340282366920938463463374607431768211456', '1' + '0' * 308 + '.',
                 '1' + '0' * 309 + '.', '.' + '0' * 30 + '1', '123456789.123456789', '1.00000005960464477539062', '1.000000059604644775390625', '1.000000059604644775390626'):
        for suf in ('', 'f32', 'f64'):
            yield body + suf
    for s in ('"a\\"b"', "'a\\'b'", '"a\\nb"', '"\\\\"', '"a\nb"', '"unterminated', "'unterminated", '"\\', '"a\\"', '\'"\'', '"a" "b"', '"\\\n"', '"\xe9\xff\x80"', "'\x01\x7f'",
              '"//not a comment"', '"/* nor this */"', '// comment at end', '/* unterminated', '/* a */ b /* c */', '/*/', '/**/x', '//\n//\nx', '/* \n\n */ y', 'a//b\nc',
              '$', '@', '#', '\\', '`', '?', ':', '.', '..', '\x01', '\x0b', '\x0c', '\x7f', '\x80', '\xff', 'a\xe9', 'a$b', '1$', '"x"$', '1..2', '1.2.3', '.5.5', '1.f32',
              '1f', '1u', '1u3', '1u88', '1i644', '1f323', '1F32', '1U8', 'u8', 'f32', '_a', 'a_', 'a1b2', '9a', '0x10', '1e5', '1.5e3', 'LET', 'Let', 'IN', 'entry_arg2',
              '<<=', '>>=', '===', '!==', '<=>', '<>=', '&&&', '|||', '--', '++', '**', '<<<', '!<>', '\r', '\t \r', 'x\ty\rz\n\nq'):
        yield s


def run(ctx):
    w = Scan()
    automata(ctx, w)
    seen = list(dict.fromkeys(texts(ctx)))
    f = w.lexer
    res = pmap(lambda s: check(w, s, False), seen)
    for s, r in zip(seen, res):
        ctx.ob('scanner', repr(s)[:120], r is None, (f.file, f.line), r)
    ctx.need('scanner', 5000)
