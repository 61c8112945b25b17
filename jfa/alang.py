"""Reference definition of the Athena language: tokens, grammar, trees, source spans."""
import re
import struct
from fractions import Fraction

KEY = {'let', 'when', 'if', 'elif', 'else', 'switch', 'in', 'not', 'and', 'or', 'true', 'false', 'entry_arg', 'exec_ctx', 'output'}
PUNCT = ['==', '!=', '<>', '<=', '>=', '<<', '>>', '&&', '||', '=', '<', '>', '!', '-', '+', '*', '/', '(', ')', '%', '|', '^', '&', '~', ',', '[', ']', '{', '}', ';']
ALIAS = {'!': 'not', '&&': 'and', '||': 'or', '<>': '!='}
# lowest binding first; all left associative
PREC = [['or'], ['and'], ['in'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>'], ['+', '-'], ['*', '/', '%']]
LEVEL = {o: i for i, l in enumerate(PREC) for o in l}
BIN = {'or': 'kOr', 'and': 'kAnd', '|': 'kBitwiseOr', '^': 'kBitwiseXor', '&': 'kBitwiseAnd', '==': 'kEqual', '!=': 'kNotEqual', '<': 'kLess',
       '<=': 'kLessEqual', '>': 'kLarge', '>=': 'kLargeEqual', '<<': 'kBitwiseShiftLeft', '>>': 'kBitwiseShiftRight', '+': 'kAdd', '-': 'kSub',
       '*': 'kMul', '/': 'kDiv', '%': 'kMod'}
UN = {'-': 'kMinus', 'not': 'kNot', '+': 'kPlus', '~': 'kBitwiseNot'}
NUMK = ['U8', 'U16', 'U32', 'U64', 'I8', 'I16', 'I32', 'I64', 'F32', 'F64']


class Reject(Exception):
    tok = None          # offending token, for syntax errors


class Unclaimed(Exception):
    """Value not representable in the literal's type: no claim."""


FLOAT = r'(?:[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)'
RULES = [
    ('blank', r'[ \t\r]+'), ('newline', r'\n+'), ('comment', r'//[^\n]*'), ('comment', r'/\*(?:[^*]|\*+[^*/])*\*+/'),
    ('id', r'[a-zA-Z][a-zA-Z_0-9]*'), ('num', r'[0-9]+'),
] + [(k, r'[0-9]+' + k.lower()) for k in NUMK[:8]] + [
    ('F64', FLOAT), ('F32', FLOAT + 'f32'), ('F64', FLOAT + 'f64'), ('F32', r'[0-9]+f32'), ('F64', r'[0-9]+f64'),
    ('STRING', r'"(?:[^\\"]|\\.)*"'), ('STRING', r"'(?:[^\\']|\\.)*'"),
] + [('punct', re.escape(p)) for p in PUNCT]
COMPILED = [(k, re.compile(r)) for k, r in RULES]


class Tok:
    def __init__(self, kind, text, value, b, e):
        self.kind, self.text, self.value, self.b, self.e = kind, text, value, b, e

    def __repr__(self):
        return '%s:%r@%s-%s' % (self.kind, self.value if self.value is not None else self.text, self.b, self.e)


def f32(txt):
    """Correctly rounded float of a decimal text, None when out of range."""
    x = Fraction(txt.rstrip('.') if not txt.startswith('.') else '0' + txt)
    if x == 0:
        return 0.0
    if x < Fraction(2) ** -126:
        raise Unclaimed()
    e = 0
    while x >= (1 << 24):
        x /= 2
        e += 1
    while x < (1 << 23):
        x *= 2
        e -= 1
    n = int(x)
    r = x - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n * Fraction(2) ** e >= Fraction(2) ** 128:
        return None
    return float(n * Fraction(2) ** e)


def f64(txt):
    x = float(txt)
    if x == float('inf'):
        return None
    if x < 2.0 ** -1022 and any(c in '123456789' for c in txt):
        raise Unclaimed()
    return x


def literal(kind, text):
    if kind == 'num':
        kind, body = 'I32', text
    elif kind in NUMK and text.lower().endswith(kind.lower()):
        body = text[:-len(kind)]
    else:
        body = text
    if kind in ('F32', 'F64'):
        v = f32(body) if kind == 'F32' else f64(body)
        if v is None:
            raise Reject('numeric literal out of range')
        return kind, v
    v = int(body)
    if v >= 1 << 64:
        raise Reject('numeric literal out of range')
    w = int(kind[1:])
    if v >= (1 << w) >> (kind[0] == 'I'):
        raise Unclaimed()
    return kind, v


def advance(pos, text):
    n = text.count('\n')
    if n:
        return (pos[0] + n, len(text) - text.rfind('\n'))
    return (pos[0], pos[1] + len(text))


def lex(src):
    """Token list; Reject when a character starts no token."""
    out = []
    i = 0
    pos = (1, 1)
    while i < len(src):
        best = None
        for k, r in COMPILED:
            m = r.match(src, i)
            if m and m.end() > i and (best is None or m.end() > best[1]):
                best = (k, m.end())
        if best is None:
            raise Reject('invalid character %r' % src[i])
        k, j = best
        text = src[i:j]
        end = advance(pos, text)
        if k == 'id':
            out.append(Tok(text if text in KEY else 'ID', text, None if text in KEY else text, pos, end))
        elif k == 'punct':
            out.append(Tok(ALIAS.get(text, text), text, None, pos, end))
        elif k == 'STRING':
            out.append(Tok('STRING', text, text[1:-1], pos, end))
        elif k not in ('blank', 'newline', 'comment'):
            kind, v = literal(k, text)
            out.append(Tok(kind, text, v, pos, end))
        i = j
        pos = end
    out.append(Tok('EOF', '', None, pos, pos))
    return out


class Node:
    """kind, payload tuple, children, source span (None when the node has none)."""

    def __init__(self, kind, data=(), kids=(), span=None):
        self.kind, self.data, self.kids, self.span = kind, tuple(data), list(kids), span

    def clone(self, span=None):
        return Node(self.kind, self.data, [k.clone() for k in self.kids], span or self.span)

    def show(self, spans=False):
        s = self.kind + (repr(self.data) if self.data else '')
        if spans:
            s += '@%s' % (self.span,)
        if self.kids:
            s += '[' + ' '.join(k.show(spans) for k in self.kids) + ']'
        return s


LITERALS = set(NUMK) | {'STRING'}


class Parser:
    def __init__(self, toks, mode):
        self.t = toks
        self.i = 0
        self.mode = mode
        self.scopes = [{}]          # name -> (node, is_const) of the latest assignment
        self.bad = None

    def peek(self):
        return self.t[self.i].kind

    def next(self, kind=None):
        t = self.t[self.i]
        if kind is not None and t.kind != kind:
            self.fail(t, 'expected %s, found %s' % (kind, t.kind))
        self.i += 1
        return t

    def fail(self, t, why):
        r = Reject(why)
        if not self.bad:
            r.tok = t
        raise r

    def span(self, i0):
        return (self.t[i0].b, self.t[self.i - 1].e)

    def expr(self, level=0):
        if level == len(PREC):
            return self.unary()
        n, i0 = self.expr_at(level)
        return n

    def expr_at(self, level):
        i0 = self.i
        n = self.expr(level + 1)
        while LEVEL.get(self.peek()) == level:
            op = self.next().kind
            r = self.expr(level + 1)
            if op == 'in':
                n = Node('Function', ('in',), [n, r], self.span(i0))
            else:
                n = Node('Binary', (BIN[op],), [n, r], self.span(i0))
        return n, i0

    def unary(self):
        i0 = self.i
        if self.peek() in UN:
            op = self.next().kind
            c = self.unary()
            return Node('Unary', (UN[op],), [c], self.span(i0))
        return self.primary()

    def args(self):
        out = [self.expr()]
        while self.peek() == ',':
            self.next()
            out.append(self.expr())
        return out

    def primary(self):
        i0 = self.i
        t = self.next()
        k = t.kind
        if k in LITERALS:
            return Node('Const', (k, t.value), (), self.span(i0))
        if k in ('true', 'false'):
            return Node('Const', ('U8', int(k == 'true')), (), self.span(i0))
        if k == '(':
            n = self.expr()
            self.next(')')
            return n
        if k == '[':
            e = self.next()
            if e.kind not in LITERALS:
                self.fail(e, 'list element')
            vs = [e.value]
            while self.peek() == ',':
                self.next()
                vs.append(self.next(e.kind).value)
            self.next(']')
            return Node('ConstList', (e.kind, tuple(vs)), (), self.span(i0))
        if k in ('if', 'switch'):
            self.next('(')
            a = self.args()
            self.next(')')
            return Node('If' if k == 'if' else 'Switch', (), a, self.span(i0))
        if k == 'ID':
            if self.peek() == '(':
                self.next()
                a = [] if self.peek() == ')' else self.args()
                self.next(')')
                return Node('Function', (t.value,), a, self.span(i0))
            return self.ref(t.value, self.span(i0))
        if k in ('entry_arg', 'exec_ctx', 'output'):
            return Node({'entry_arg': 'EntryArgument', 'exec_ctx': 'ExecContext', 'output': 'Output'}[k], (), (), self.span(i0))
        self.fail(t, 'unexpected %s' % k)

    def ref(self, name, span):
        for sc in reversed(self.scopes):
            if name in sc:
                if self.mode == 'E':
                    return sc[name][0].clone(span)
                return Node('Ref', (name,), (), span)
        self.bad = 'undefined variable ' + name
        return Node('Ref', (name,), (), span)

    def statement(self):
        """(name, const, node)"""
        if self.peek() == 'when':
            return ('', False, self.when())
        if self.peek() == 'let':
            self.next()
            name = self.next('ID').value
            self.next('=')
            n = self.expr()
            self.next(';')
            return (name, True, n)
        if self.peek() == 'ID' and self.t[self.i + 1].kind == '=':
            name = self.next().value
            self.next()
            n = self.expr()
            self.next(';')
            return (name, False, n)
        n = self.expr()
        self.next(';')
        return ('', False, n)

    def program(self, end):
        out = []
        while not out or self.peek() != end:
            s = self.statement()
            name, const, n = s
            sc = self.scopes[-1]
            if name:
                if self.mode == 'E' and name in sc and (sc[name][1] or const):
                    self.bad = self.bad or 'let rule for ' + name
                sc[name] = (n, const)
            out.append(s)
        return out

    def block(self):
        self.next('{')
        self.scopes.append({})
        b = self.program('}')
        self.scopes.pop()
        self.next('}')
        return noop(b)

    def when(self):
        i0 = self.i
        self.next('when')
        kids = [self.expr()]
        kids.append(self.block())
        while self.peek() in ('elif', 'else'):
            if self.next().kind == 'elif':
                kids.append(self.expr())
            kids.append(self.block())
        if self.mode == 'E':
            raise Reject('when block in expression mode')
        return Node('IfBlock', (), kids, self.span(i0))


def noop(stmts, isolated=False):
    return Node('NoOP', (isolated,) + tuple((n, c) for n, c, _ in stmts), [x for _, _, x in stmts])


def parse(src, mode):
    """Reference tree of a program text; mode 'E' (expression) or 'P' (pipeline)."""
    p = Parser(lex(src), mode)
    s = p.program('EOF')
    if p.bad:
        raise Reject(p.bad)
    return s[-1][2] if mode == 'E' else noop(s)
