"""Malformed, foreign or mismatching artifacts are refused without reading outside the blob."""
import itertools
from ..artifact import *

EXPLAIN = ('The artifact parser is evaluated on the typed AST over every proper prefix of well-formed artifacts, every structural byte replaced by boundary '
           'values, every length and count field replaced by boundary values up to its maximum, swapped and duplicated regions and trailing bytes, under several '
           'content fillings; the verdict and fields are compared with the documented layout and every buffer access is bounds checked. The host check and both '
           'LoadCompiled functions are evaluated over the whole table of mismatches and option settings.')
ASSUME = ['one field corrupted at a time (pairs in the thorough tier)']


def regions(f):
    """(name, offset, width) of every structural field of layout_of(f)."""
    out = [('magic', 0, 4), ('version', 4, 4)]
    p = 8
    for k in ('llvm_version', 'target_triple', 'cpu_name'):
        out.append((k + '.len', p, 4))
        p += 4 + len(f[k])
    out += [('mode', p, 1), ('fp', p + 1, 1), ('entries', p + 2, 4)]
    p += 6 + len(f['types'])
    out.append(('obj.len', p, 8))
    p += 8 + len(f['obj'])
    out.append(('ext.count', p, 4))
    p += 4
    for i, (t, pay) in enumerate(f['ext']):
        out += [('ext%d.tag' % i, p, 4), ('ext%d.len' % i, p + 4, 4)]
        p += 8 + len(pay)
    out.append(('footer', p, 4))
    return out


def run(ctx):
    w = Art(ctx)
    w.real_text = True
    it = w.it
    fd = w.p.fn(NS + 'DeserializeArtifact')
    fills = ['\0', '\xff', '\x01', 'JFCE']
    if not ctx.thorough:
        fills = fills[:3]
    shapes = [dict(mode=0, fp=1, types=[4], l=(2, 1, 3), ob=6, ex=[]),
              dict(mode=1, fp=0, types=[1, 23, 7], l=(0, 2, 1), ob=9, ex=[(1, 2), (9, 0)]),
              dict(mode=1, fp=1, types=[0], l=(1, 0, 0), ob=0, ex=[(0xffffffff, 5)])]
    n = [0]

    def judge(rule, inst, blob):
        try:
            want = decode(blob)
        except Bad as b:
            want = None

        def thunk():
            return w.parse_fields(blob)
        for o in it.explore(thunk):
            n[0] += 1
            mal = [x for x in o['events'] if x['kind'] in BADEV]
            why = None
            if mal:
                why = '%s %s' % (mal[0]['kind'], mal[0].get('what'))
            elif o['kind'] != 'ret':
                why = 'evaluation ends with %s %s' % (o['kind'], o.get('why'))
            else:
                st, g = o['ret']
                if want is None and st != 'InvalidArgument':
                    why = 'accepted' if st == 'OK' else 'refused with %s' % st
                elif want is not None:
                    why = 'refused (%s) although well formed' % st if st != 'OK' else diff(g, want)
            ctx.ob(rule, inst, why is None, (fd.file, fd.line), why)

    def rep(b, c, fill):
        return b
    for si, s in enumerate(shapes):
        for fi, fl in enumerate(fills):
            def fill(k):
                return (fl * k)[:k]
            f = dict(llvm_version=fill(s['l'][0]), target_triple=fill(s['l'][1]), cpu_name=fill(s['l'][2]), mode=s['mode'], fp=s['fp'],
                     types=s['types'], obj=fill(s['ob']), ext=[(t, fill(k)) for t, k in s['ex']])
            b = layout_of(f)
            nm = 'shape %d fill %r' % (si, fl)
            judge('well-formed', nm, b)
            for k in range(len(b)):
                judge('truncated', '%s first %d of %d bytes' % (nm, k, len(b)), b[:k])
            for t in ('\0', fl, 'JFCE', b):
                judge('trailing', '%s followed by %d bytes' % (nm, len(t)), b + t)
                judge('leading', '%s preceded by %d bytes' % (nm, len(t)), t + b)
            reg = regions(f)
            for name, off, wd in reg:
                for k in range(off, off + wd):
                    c = ord(b[k])
                    for v in sorted({0, 1, 2, 3, 0x7f, 0x80, 0xff, (c + 1) & 255, (c - 1) & 255, c ^ 0x20} - {c}):
                        judge('corrupted-byte', '%s %s byte %d = %d' % (nm, name, k - off, v), b[:k] + chr(v) + b[k + 1:])
                if not name.endswith(('len', 'count', 'entries', 'version')):
                    continue
                cur = sum(ord(c) << (8 * i) for i, c in enumerate(b[off:off + wd]))
                rem = len(b) - off - wd
                vals = {0, cur - 1, cur + 1, rem - 1, rem, rem + 1, rem - 4, rem - 8, rem // 8, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, (1 << 32) - rem,
                        (1 << 32) - off - wd, (1 << 32) - off - wd + rem, 1 << 16, 256}
                if wd == 8:
                    vals |= {1 << 32, (1 << 32) + cur, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - off - wd, (1 << 64) - off - wd + cur, (1 << 64) - 4}
                for v in sorted(x for x in vals if 0 <= x < 1 << (8 * wd) and x != cur):
                    judge('corrupted-field', '%s %s = %d' % (nm, name, v), b[:off] + le(v, wd) + b[off + wd:])
            if ctx.thorough:
                big = {0: 0, 1: 1, 2: (1 << 32) - 1, 3: 5}
                fld = [r for r in reg if r[0].endswith(('len', 'count', 'entries')) or r[0] == 'mode']
                for (n1, o1, w1), (n2, o2, w2) in itertools.combinations(fld, 2):
                    for v1 in big.values():
                        for v2 in big.values():
                            x = b[:o1] + le(v1, w1) + b[o1 + w1:]
                            x = x[:o2] + le(v2, w2) + x[o2 + w2:]
                            judge('corrupted-pair', '%s %s = %d, %s = %d' % (nm, n1, v1, n2, v2), x)
    judge('foreign', 'empty', '')
    for t in ('J', 'JFC', 'JFCA', '\x7fELF' + '\0' * 60, 'JFCE' * 20, 'JFCA' + '\0' * 80, 'JFCA\2\0\0\0' + '\xff' * 80, 'JFCA\2\0\0\0' + '\0' * 80, 'A' * 200):
        judge('foreign', repr(t[:12]) + ' (%d bytes)' % len(t), t)

    # host compatibility: every combination of (mis)matching fields, options and engine kind
    fc = w.p.fn(NS + 'CheckHostCompatibility')
    opts = ('check_llvm_version', 'check_target_triple', 'check_cpu_name')
    fld = ('llvm_version', 'target_triple', 'cpu_name')
    host = ('19.1', 'x86', 'zen')
    variants = [('19.1', '19.2', '19', '19.10', ''), ('x86', 'x87', '', 'x86 '), ('zen', 'Zen', 'zen2', '')]
    ot = w.p.types[NS + 'LoadCompiledOptions']

    def mkopts(bits):
        o = Obj(ot)
        it.default_fields(w.p.rec(ot), o, set())
        for k, v in zip(opts, bits):
            o.f[k].v = v
        return o
    o = Obj(ot)
    it.default_fields(w.p.rec(ot), o, set())
    ctx.ob('host-default', 'LoadCompiledOptions', all(o.f[k].v == 1 for k in opts), (fc.file, fc.line), 'a compatibility check is off by default')
    for vals in itertools.product(*variants):
        for bits in itertools.product((0, 1), repeat=3):
            for mode in (0, 1):
                for exp in (0, 1):
                    h = dict(zip(fld, vals), mode=mode, fp=1, types=[1], ext=[])
                    want = mode == exp and all(v == g or not b for v, g, b in zip(vals, host, bits))

                    def thunk():
                        return w.status(w.call(NS + 'CheckHostCompatibility', None, Cell(w.header(h)), Cell(mkopts(bits)), host[0], host[1], host[2], exp))
                    for o in it.explore(thunk):
                        ok = o['kind'] == 'ret' and (o['ret'] == 'OK') == want and (want or o['ret'] == 'InvalidArgument')
                        ctx.ob('host', 'artifact %s mode %d, checks %s, engine kind %d' % (vals, mode, bits, exp), ok, (fc.file, fc.line),
                               'expected %s, got %s' % ('acceptance' if want else 'refusal', o['ret'] if o['kind'] == 'ret' else o.get('why')))

    # engines: refused before anything is loaded, and nothing changes
    w.orc.faults = set()
    for cls in ('ExecEngine', 'BatchExecEngine'):
        fl = w.p.fn(NS + cls + '::LoadCompiled')
        base = {}

        def prep():
            e = w.engine(cls, save=1)
            if w.do_compile(e, cls, [w.stub('x', 'U8')]) != 'OK':
                raise Broken('compile of a plain program fails')
            st, b = w.do_save(e, cls)
            st, g = w.parse_fields(b)
            if st != 'OK':
                raise Broken('saved artifact does not parse')
            return g
        outs = it.explore(prep)
        if len(outs) != 1 or outs[0]['kind'] != 'ret':
            ctx.ob('load', cls, False, (fl.file, fl.line), 'no artifact to load')
            continue
        good = outs[0]['ret']
        for bad in (None, 'llvm_version', 'target_triple', 'cpu_name', 'mode', 'cut', 'tail'):
            for how in ('x', '', 'prefix'):
                for bits in itertools.product((0, 1), repeat=3):
                    f = dict(good)
                    if bad in fld:
                        f[bad] = {'x': 'x' + f[bad], '': '', 'prefix': f[bad][:-1]}[how]
                    elif bad == 'mode':
                        f['mode'] = 1 - f['mode']
                    elif how != 'x':
                        continue
                    blob = layout_of(f)
                    if bad == 'cut':
                        blob = blob[:-1]
                    if bad == 'tail':
                        blob += '\0'
                    want = bad is None or (bad in fld and not bits[fld.index(bad)])

                    def thunk():
                        e = w.engine(cls, save=1)
                        n0 = len(it.events)
                        r = w.do_load(e, cls, blob, dict(zip(opts, bits)))
                        ev = it.events[n0:]
                        if (r == 'OK') != want:
                            return 'expected %s, got %s' % ('acceptance' if want else 'refusal', r)
                        if not want and any(x['kind'] in ('addObjectFile', 'lookup_symbol') for x in ev):
                            return 'object code loaded before the refusal'
                        if not want:
                            s, calls, r = w.do_execute(e, cls, None if cls == 'ExecEngine' else 0)
                            if calls or s == 'OK':
                                return 'executable after the refusal'
                        return None
                    for o in it.explore(thunk):
                        why = o['ret'] if o['kind'] == 'ret' else '%s %s' % (o['kind'], o.get('why'))
                        mal = [x for x in o['events'] if x['kind'] in BADEV]
                        if mal:
                            why = '%s %s' % (mal[0]['kind'], mal[0].get('what'))
                        ctx.ob('load', '%s %s%s checks %s' % (cls, bad, ' ' + how if bad in fld else '', bits), why is None, (fl.file, fl.line), why)
    ctx.stats.update(blobs=n[0], functions=len(it.visited_funcs))
    ctx.need('truncated', 300)
    ctx.need('corrupted-field', 300)
    ctx.need('corrupted-byte', 1000)
    ctx.need('host', 500)
    ctx.need('load', 50)
