"""A saved artifact restores exactly what was saved."""
from ..artifact import *

EXPLAIN = ('The artifact writer and reader are evaluated on the typed AST with opaque text, object and payload bytes: the written bytes are compared '
           'with the documented layout and the fields read back with the fields written; then SaveCompiled and LoadCompiled of both engines '
           'are evaluated end to end over the JIT model.')
ASSUME = ['field lengths 0, 1, 3, 300 (and 70000 for the object), up to 3 (and 300) entries, up to 2 extensions; extension payloads below 4 GiB']


def run(ctx):
    w = Art(ctx)
    w.real_text = True
    it = w.it
    fs = w.p.fn(NS + 'SerializeArtifact')
    fd = w.p.fn(NS + 'DeserializeArtifact')
    lens = [(0, 0, 0), (1, 1, 1), (3, 0, 1), (0, 3, 1), (1, 0, 3), (300, 2, 1), (1, 300, 2), (2, 1, 300)]
    objs = [0, 1, 5, 255, 256, 70000]
    exts = [[], [(0, 0)], [(7, 3)], [(0xfffefdfc, 1), (0x01020304, 300)], [(1, 2), (1, 0)]]
    types = {0: [[t] for t in range(25)] + [[255]], 1: [[0], [1, 24], [23, 0, 5], list(range(25)) * 12]}
    cases = []
    for mode in (0, 1):
        for fp in (0, 1):
            for ty in types[mode]:
                cases.append((mode, fp, lens[1], 5, exts[0], ty))
            for l in lens:
                for ob in ((0, 5) if not ctx.thorough else objs):
                    for ex in exts:
                        cases.append((mode, fp, l, ob, ex, types[mode][1]))
            for ob in objs:
                cases.append((mode, fp, lens[2], ob, exts[2], types[mode][1]))
    n = 0
    for mode, fp, l, ob, ex, ty in cases:
        f = dict(llvm_version=opq('llvm', l[0]), target_triple=opq('triple', l[1]), cpu_name=opq('cpu', l[2]), mode=mode, fp=fp,
                 types=ty, obj=opq('obj', ob), ext=[(t, opq('pay%d' % i, k)) for i, (t, k) in enumerate(ex)])
        for prefix, stale in (('', False), ('PRE', True)):
            def thunk():
                st, blob = w.serialize(f, prefix)
                if st != 'OK':
                    return 's', 'SerializeArtifact refuses a valid header (%s)' % st
                if blob[:len(prefix)] != prefix:
                    return 's', 'the caller\'s existing bytes are changed'
                blob = blob[len(prefix):]
                want = layout_of(f)
                if blob != want:
                    k = next((i for i in range(min(len(blob), len(want))) if blob[i] != want[i]), min(len(blob), len(want)))
                    return 's', 'byte %d of the artifact differs from the documented layout (%d bytes, documented %d)' % (k, len(blob), len(want))
                st, g = w.parse_fields(blob, stale)
                if st != 'OK':
                    return 'd', 'an artifact just written is refused (%s)' % st
                y = diff(g, f)
                return ('d', y) if y else (None, None)
            for o in it.explore(thunk):
                n += 1
                mal = [x for x in o['events'] if x['kind'] in BADEV]
                side, why = o['ret'] if o['kind'] == 'ret' else ('d', 'evaluation ends with %s %s' % (o['kind'], o.get('why')))
                if mal:
                    why = '%s %s' % (mal[0]['kind'], mal[0].get('what'))
                at = fs if side == 's' else fd
                ctx.ob('roundtrip', 'mode %d fp %d lengths %s object %d entries %d ext %s%s' % (mode, fp, l, ob, len(ty), [e[1] for e in ex],
                       ' appended, reused header' if stale else ''), why is None, (at.file, at.line), why)
    # invalid headers are refused, nothing half-written is reported as success
    base = dict(llvm_version='a', target_triple='b', cpu_name='c', fp=1, obj='xyz', ext=[])
    for mode, ty in ((0, []), (1, []), (0, [1, 2]), (0, [1, 2, 3])):
        f = dict(base, mode=mode, types=ty)
        for o in it.explore(lambda: w.serialize(f)[0]):
            ctx.ob('refuse-header', 'mode %d entries %d' % (mode, len(ty)), o['kind'] == 'ret' and o['ret'] != 'OK', (fs.file, fs.line), 'accepted')
    for obj in ('', 'abc'):
        f = dict(base, mode=0, types=[1], obj=obj)
        for o in it.explore(lambda: w.status(w.call(NS + 'SerializeArtifact', None, Cell(w.header(f)), Cell(obj), None))):
            ctx.ob('null-output', 'SerializeArtifact', o['kind'] == 'ret' and o['ret'] != 'OK' and not o['events'], (fs.file, fs.line), 'null output accepted')
    good = layout_of(dict(base, mode=0, types=[1]))
    for k in range(3):
        def thunk():
            h = None if k in (0, 2) else Ptr(Cell(w.new('ArtifactHeader')))
            v = None if k in (1, 2) else Ptr(Cell(''))
            return w.status(w.call(NS + 'DeserializeArtifact', None, Cell(good), h, v))
        for o in it.explore(thunk):
            ctx.ob('null-output', 'DeserializeArtifact', o['kind'] == 'ret' and o['ret'] != 'OK' and not [e for e in o['events'] if e['kind'] in BADEV],
                   (fd.file, fd.line), 'null output accepted')

    # engines: what SaveCompiled records and what LoadCompiled makes of it
    w.orc.faults = set()
    progs = {'ExecEngine': [[t] for t in ALLT if t != 'Ptr'], 'BatchExecEngine': [['U8'], ['I64', 'F64List'], ['String', 'Void', 'U16List'], ['F32'] * 12]}
    for cls in progs:
        f = w.p.fn(NS + cls + '::SaveCompiled')
        for ty in progs[cls]:
            for fp in ('kStrict', 'kFast'):
                def thunk():
                    e = w.engine(cls, save=1, fp=fp)
                    if w.do_compile(e, cls, [w.stub('x%d' % i, t) for i, t in enumerate(ty)]) != 'OK':
                        raise Broken('compile of a plain program fails')
                    st, b = w.do_save(e, cls)
                    if st != 'OK':
                        return 'SaveCompiled refuses a compiled program (%s)' % st
                    st, g = w.parse_fields(b)
                    if st != 'OK':
                        return 'the saved artifact is refused (%s)' % st
                    js = w.owned_jits(e)
                    enum = w.p.enum(NS + 'ValueType')['names']
                    want = dict(target_triple='triple', cpu_name='cpu', mode=0 if cls == 'ExecEngine' else 1,
                                fp=w.p.enum(NS + 'FPMathMode')['names'][fp], types=[enum['k' + t] for t in ty], obj='OBJ%d' % js[-1].id, ext=[])
                    y = diff(g, want)
                    if y:
                        return y
                    if not g['llvm_version']:
                        return 'no LLVM version recorded'
                    # a second save gives the same bytes
                    if w.do_save(e, cls) != ('OK', b):
                        return 'saving twice gives different artifacts'
                    for fp2 in ('kStrict', 'kFast'):
                        e2 = w.engine(cls, save=1, fp=fp2)
                        if w.do_load(e2, cls, b) != 'OK':
                            return 'LoadCompiled refuses an artifact saved on the same host (fp %s into %s)' % (fp, fp2)
                        j2 = w.owned_jits(e2)
                        if len(j2) != 1 or [x.text for x in j2[0].objects] != [want['obj']]:
                            return 'the loaded object code is not the saved one'
                        for i, t in enumerate(ty):
                            if t == 'Void':
                                continue
                            s, calls, r = w.do_execute(e2, cls, None if cls == 'ExecEngine' else i)
                            nm = 'entry' if cls == 'ExecEngine' else 'entry%d' % i
                            if s != 'OK' or len(calls) != 1 or getattr(calls[0]['addr'], 'name', None) != nm:
                                return 'loaded entry %d does not execute as saved (%s)' % (i, s)
                            okr, y = result_ok(w, t, nm, w.listlen, r)
                            if not okr:
                                return 'loaded entry %d: %s' % (i, y)
                    return None
                for o in it.explore(thunk):
                    why = o['ret'] if o['kind'] == 'ret' else '%s %s' % (o['kind'], o.get('why'))
                    mal = [x for x in o['events'] if x['kind'] in BADEV]
                    if mal:
                        why = '%s %s' % (mal[0]['kind'], mal[0].get('what'))
                    ctx.ob('save-load', '%s %s %s' % (cls, fp, ','.join(ty)), why is None, (f.file, f.line), why)
    ctx.stats.update(artifacts=n, functions=len(it.visited_funcs))
    ctx.need('roundtrip', 300)
    ctx.need('save-load', 30)


from .p17 import result_ok
