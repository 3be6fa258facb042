"""C01: tag-file structure layout: reads and writes of every structure agree with the definitions."""
from ..layout import *
from ..report import where
from ..defs import frozen, current

RULE = ('For every structure in the definitions the bodies generated for reading from and writing to a tag file are abstractly evaluated; '
        'each persistent field must be read by exactly one operation of the defined type at the defined offset and byte order, its value must '
        'reach that field of the returned structure, and the write body must write the same field with the same type, offset and order.')
EXPLANATION = ('Offsets, types, counts and byte orders come from an independent reader of the JSON definitions (rhsa/defs.py), which is also '
               'checked to be self-consistent (field sizes add up to the declared structure size).')


def rust(D, s):
    return s


def check(P, R):
    D = Defs()
    for s in sorted(D.structs):
        simple = find(P, s, SIMPLE, 'read')
        if simple:
            fr, fw, fs = simple, find(P, s, SIMPLE, 'write'), find(P, s, SIMPLE, 'simple_size')
        else:
            fr, fw, fs = find(P, s, TAGDATA, 'read_from_tag_file'), find(P, s, TAGDATA, 'write_to_tag_file'), find(P, s, TAGDATA, 'size')
        R.ob('structure')
        if not (fr and fw and fs):
            R.viol('missing:' + s, 'no tag-file reader/writer/size found for structure %s' % s)
            continue
        for f in (fr, fw, fs):
            R.fn(f)
        fields = [f for f in D.fields(s) if f.kind != 'pad']
        R.check(D.end(s) == D.structs[s]['size'], 'defsize:' + s, 'the fields of %s add up to %d bytes but its declared size is %d' % (s, D.end(s), D.structs[s]['size']))
        n = consteval(P, fs)
        R.ob('size constants')
        R.check(n == D.structs[s]['size'], 'size:' + s, 'size() of %s is %s, the definitions say %d' % (s, n, D.structs[s]['size']), where(fs))
        check_struct(P, R, D, s, fr, fw, fields, bool(simple))
    blankets(P, R)
    froz, cur = frozen()['structs'], current(D)['structs']
    for s, a in sorted(froz.items()):
        b = cur.get(s)
        if b is None:
            continue
        R.check(a['size'] == b['size'], 'format:%s' % s, 'the definitions give %s %d bytes, the released format has %d' % (s, b['size'], a['size']), 'src/ringhopper-definitions/json')
        for f, x in a['fields'].items():
            R.ob('released format fields')
            y = b['fields'].get(f)
            R.check(y is not None and x[:3] == y[:3] and ('le ' in x[3]) == ('le ' in y[3]), 'format:%s:%s' % (s, f),
                    'field %s of %s is defined as %s, the released format has %s (offset, type, count, flags)' % (f, s, y and y[:4], x[:4]), 'src/ringhopper-definitions/json')
    R.floor('structure', 480)
    R.floor('field reads', 2800)
    R.floor('field writes', 2800)


def want_order(f, simple):
    return 'LittleEndian' if f.flags['little_endian'] else ('B' if simple else 'tag')


def same_order(o, w):
    return o == w or {o, w} == {'tag', 'BigEndian'}


def check_struct(P, R, D, s, fr, fw, fields, simple):
    by = {f.off: f for f in fields}
    rd = Plan(P, fr, 'at')
    wr = Plan(P, fw, 'at')
    persistent = [f for f in fields if f.in_tags]
    others = {f.off for f in fields if not f.in_tags}
    for nm, plan, fn in (('read', rd, fr), ('write', wr, fw)):
        R.check(bool(plan.ok or plan.tail), 'noreturn:%s:%s' % (s, nm), '%s of %s never returns Ok' % (nm, s), where(fn))
        seen = {}
        for o in plan.ops:
            if o.kind != nm:
                R.viol('kind:%s:%s' % (s, nm), 'the %s body of %s performs a %s' % (nm, s, o.kind), where(fn, o.e.line))
                continue
            if o.off is None:
                R.viol('offset?:%s:%s' % (s, nm), '%s of %s uses an offset that is not a constant distance from its start (type %s)' % (nm, s, o.type), where(fn, o.e.line))
                continue
            f = by.get(o.off)
            if f is None:
                R.viol('stray:%s:%s:%s' % (s, nm, o.type), '%s of %s touches offset %d (type %s) where the definitions have no field' % (nm, s, o.off, o.type), where(fn, o.e.line))
                continue
            if o.off in seen:
                R.viol('twice:%s:%s:%s' % (s, nm, f.rust), '%s of %s handles field %s twice' % (nm, s, f.rust), where(fn, o.e.line))
            seen[o.off] = o
            R.check(o.type == ftype(f), 'type:%s:%s:%s' % (s, nm, f.rust), '%s of %s.%s uses type %s, the definitions say %s' % (nm, s, f.rust, o.type, ftype(f)), where(fn, o.e.line))
            R.check(same_order(o.order, want_order(f, simple)), 'order:%s:%s:%s' % (s, nm, f.rust), '%s of %s.%s uses byte order %s, expected %s' % (nm, s, f.rust, o.order, want_order(f, simple)), where(fn, o.e.line))
            R.check(plan.completes(o), 'skippable:%s:%s:%s' % (s, nm, f.rust), '%s of %s can report success without having completed the %s of field %s' % (nm, s, nm, f.rust), where(fn, o.e.line))
        for f in persistent:
            R.ob('field %ss' % nm)
            o = seen.get(f.off)
            if o is None:
                R.viol('nofield:%s:%s:%s' % (s, nm, f.rust), 'field %s of %s (offset %d) is never %s' % (f.rust, s, f.off, 'read' if nm == 'read' else 'written'), where(fn))
                continue
            if nm == 'read':
                want = plan.ev.project(o.call, 'Ok.0')
                for v in plan.okvals():
                    got = plan.ev.project(v, f.rust)
                    R.check(got is want, 'flow:%s:read:%s' % (s, f.rust), 'the value read at offset %d of %s does not reach field %s (it holds %s)' % (f.off, s, f.rust, show(got, 5)), where(fn, o.e.line))
            else:
                a = o.e.cont[0]
                R.check(a is mk('fld', mk('at', mk('arg', 'self')), f.rust), 'flow:%s:write:%s' % (s, f.rust), 'the value written at offset %d of %s is not field %s but %s' % (f.off, s, f.rust, show(a, 5)), where(fn, o.e.line))
    if len(R.samples) < 6 and persistent:
        f = persistent[-1]
        R.sample('%s.%s: %s at +%d, read %s, written %s' % (s, f.rust, ftype(f), f.off, fr.p, fw.p))


def blankets(P, R):
    """Every simple value goes through one blanket adaptor: big-endian in tag files, little-endian in caches."""
    for meth, what, order in (('read_from_tag_file', 'read', 'BigEndian'), ('write_to_tag_file', 'write', 'BigEndian')):
        f = P.fns.get('<T as %s>::%s' % (TAGDATA, meth))
        R.ob('simple-value adaptors')
        if f is None:
            R.viol('blanket:' + meth, 'the adaptor through which simple values are %s in tag files was not found' % what)
            continue
        R.fn(f)
        p = Plan(P, f, 'at')
        ops = [(o.kind, o.off, o.order) for o in p.ops]
        R.check(ops == [(what, 0, order)] and p.completes(p.ops[0]) and (what == 'write' or all(v is p.ev.project(p.ops[0].call, 'Ok.0') for v in p.okvals())),
                'blanket:' + meth, 'the simple-value adaptor %s does %s instead of one big-endian %s at the given offset' % (meth, ops, what), where(f))
