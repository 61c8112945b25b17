"""The documented artifact layout (header comment of compiled_artifact.h) and evaluation helpers shared by the artifact checks."""
from .eng import *
from .interp import charof

MAGIC, FOOT, VERSION = 'JFCA', 'JFCE', 2


def opq(name, n):
    """n opaque bytes."""
    return ''.join(charof(Sym(('byte', name, i))) for i in range(n))


def le(v, n):
    return ''.join(chr(v >> (8 * i) & 255) for i in range(n))


def layout_of(f):
    """Documented bytes of an artifact with fields f."""
    b = MAGIC + le(VERSION, 4)
    for k in ('llvm_version', 'target_triple', 'cpu_name'):
        b += le(len(f[k]), 4) + f[k]
    b += chr(f['mode']) + chr(f['fp']) + le(len(f['types']), 4) + ''.join(chr(t) for t in f['types'])
    b += le(len(f['obj']), 8) + f['obj'] + le(len(f['ext']), 4)
    for tag, pay in f['ext']:
        b += le(tag, 4) + le(len(pay), 4) + pay
    return b + FOOT


class Bad(Exception):
    pass


def decode(b):
    """Fields of blob b by the documented layout, or Bad."""
    pos = [0]

    def take(n):
        if pos[0] + n > len(b):
            raise Bad('short')
        s = b[pos[0]:pos[0] + n]
        pos[0] += n
        return s

    def num(n):
        s = take(n)
        return sum((ord(c) & 255) << (8 * i) for i, c in enumerate(s))
    f = {}
    if take(4) != MAGIC or num(4) != VERSION:
        raise Bad('magic')
    for k in ('llvm_version', 'target_triple', 'cpu_name'):
        f[k] = take(num(4))
    f['mode'], f['fp'] = num(1), num(1)
    if f['mode'] > 1 or f['fp'] > 1:
        raise Bad('enum')
    n = num(4)
    if n == 0 or (f['mode'] == 0 and n != 1):
        raise Bad('entries')
    f['types'] = [ord(c) & 255 for c in take(n)]
    f['obj'] = take(num(8))
    f['ext'] = []
    for i in range(num(4)):
        t = num(4)
        f['ext'].append((t, take(num(4))))
    if take(4) != FOOT or pos[0] != len(b):
        raise Bad('footer')
    return f


class Art(Eng):
    """Serialiser and parser evaluated on the typed AST."""

    def header(self, f):
        h = self.new('ArtifactHeader')
        for k in ('llvm_version', 'target_triple', 'cpu_name'):
            h.f[k].v = f[k]
        h.f['mode'].v = f['mode']
        h.f['fp_math_mode'].v = f['fp']
        h.f['per_entry_ret_types'].v = self.vec(list(f['types']))
        et = self.p.types[NS + 'ArtifactExtension']
        ex = []
        for tag, pay in f['ext']:
            o = Obj(et)
            self.it.default_fields(self.p.rec(et), o, set())
            o.f['tag'].v = tag
            o.f['payload'].v = pay
            ex.append(o)
        h.f['extensions'].v = self.vec(ex)
        return h

    def serialize(self, f, prefix=''):
        out = Cell(prefix)
        st = self.status(self.call(NS + 'SerializeArtifact', None, Cell(self.header(f)), Cell(f['obj']), Ptr(out)))
        return st, out.v

    def fields(self, h, obj):
        f = {k: h.f[k].v for k in ('llvm_version', 'target_triple', 'cpu_name')}
        f['mode'], f['fp'] = h.f['mode'].v, h.f['fp_math_mode'].v
        f['types'] = [c.v for c in h.f['per_entry_ret_types'].v.c]
        f['ext'] = [(c.v.f['tag'].v, c.v.f['payload'].v) for c in h.f['extensions'].v.c]
        f['obj'] = obj
        return f

    def parse_fields(self, blob, stale=False):
        h = Cell(self.new('ArtifactHeader'))
        v = Cell('')
        if stale:   # a header object used before
            old = dict(llvm_version='old', target_triple='old', cpu_name='old', mode=1, fp=0, types=[3, 4, 5], ext=[(9, 'old')], obj='old')
            h = Cell(self.header(old))
            v = Cell('old')
        st = self.status(self.call(NS + 'DeserializeArtifact', None, Cell(blob), Ptr(h), Ptr(v)))
        return st, (self.fields(h.v, v.v) if st == 'OK' else None)


BADEV = ('malformed', 'nullderef', 'oob', 'uninit', 'ub')


def diff(got, want):
    for k in want:
        if got[k] != want[k]:
            return '%s is %r instead of %r' % (k, short(got[k]), short(want[k]))
    return None


def short(v):
    s = repr(v)
    return s if len(s) < 60 else s[:57] + '...'
