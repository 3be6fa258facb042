"""C03: values that exist only in caches never enter or leave tag files; values that exist only in tag files are not taken from caches."""
from ..layout import *
from ..bits import bits, cond_bit
from ..report import where

RULE = ('Provenance: in every structure reader the value given to a cache-only (or excluded) field must not depend on any file read; in every tag writer '
        'the bytes emitted where such a field lies must not depend on the structure; in every cache reader tag-only fields must keep their default. '
        'For flag sets with cache-only bits the same is decided per bit (bit-provenance domain).')
EXPLANATION = 'Field and flag classes come from an independent reader of the JSON definitions (rhsa/defs.py).'


def self_derived(v):
    me = mk('arg', 'self')
    return any(x is me for x in walk(v))


def check(P, R):
    D = Defs()
    from ..defs import frozen, current
    froz, cur = frozen(), current(D)
    for s, a in froz['structs'].items():
        for f, x in a['fields'].items():
            y = cur['structs'].get(s, {}).get('fields', {}).get(f)
            R.ob('released format flags')
            R.check(y is None or x[3] == y[3], 'format:%s:%s' % (s, f), 'field %s of %s is marked %r in the definitions, the released format has %r (nd: not in caches, cy: caches only, se: shifted)' % (f, s, y and y[3], x[3]), 'src/ringhopper-definitions/json')
    for s, a in froz['bitfields'].items():
        for f, x in a['fields'].items():
            y = cur['bitfields'].get(s, {}).get('fields', {}).get(f)
            R.check(y is None or x[1:] == y[1:], 'format:%s:%s' % (s, f), 'flag %s of %s is marked %s in the definitions, the released format has %s (caches only, not in caches)' % (f, s, y and y[1:], x[1:]), 'src/ringhopper-definitions/json')
    for s in sorted(D.structs):
        fields = [f for f in D.fields(s) if f.kind != 'pad']
        hid = [f for f in fields if not f.in_tags]
        tagonly = [f for f in fields if not f.in_maps]
        if not hid and not tagonly:
            continue
        a = P.adts.get(S + s)
        have = {x[0] for x in a['variants'][0][2]} if a else set()
        simple = find(P, s, SIMPLE, 'read')
        fr = simple or find(P, s, TAGDATA, 'read_from_tag_file')
        fw = find(P, s, SIMPLE, 'write') if simple else find(P, s, TAGDATA, 'write_to_tag_file')
        fm = find(P, s, TAGDATA, 'read_from_map')
        if not fr or not fw:
            R.viol('missing:' + s, 'no tag reader/writer found for structure %s' % s)
            continue
        R.ob('structures with confined fields')
        rd, wr = Plan(P, fr, 'at'), Plan(P, fw, 'at')
        R.fn(fr), R.fn(fw)
        byoff = {f.off: f for f in fields}
        for f in hid:
            R.ob('cache-only or excluded fields')
            if f.flags['exclude']:
                R.check(f.rust not in have, 'excluded:%s:%s' % (s, f.rust), 'excluded field %s is present in structure %s' % (f.rust, s))
                continue
            if f.rust not in have:
                R.viol('absent:%s:%s' % (s, f.rust), 'structure %s has no field %s' % (s, f.rust))
                continue
            for v in rd.okvals():
                got = rd.ev.project(v, f.rust)
                R.check(not io_derived(got), 'tagread:%s:%s' % (s, f.rust), 'cache-only field %s.%s takes its value from the tag file: %s' % (s, f.rust, show(got, 5)), where(fr))
        conf = {f.off: f for f in hid}
        for o in wr.ops:
            f = conf.get(o.off)
            if f is None:
                continue
            a0 = o.e.cont[0]
            R.ob('writes over confined fields')
            R.check(not self_derived(a0), 'tagwrite:%s:%s' % (s, f.rust), 'cache-only field %s.%s is written to the tag file: %s' % (s, f.rust, show(a0, 5)), where(fw, o.e.line))
        # no write may use a confined field at all
        for o in wr.ops:
            for x in walk(o.e.cont[0]):
                if x.op == 'fld' and x.a[0] is mk('at', mk('arg', 'self')):
                    for f in hid:
                        R.check(x.a[1] != f.rust, 'tagwrite:%s:%s' % (s, f.rust), 'cache-only field %s.%s is written to the tag file at offset %s' % (s, f.rust, o.off), where(fw, o.e.line))
        if fm is not None and tagonly:
            mp = Plan(P, fm, 'address')
            R.fn(fm)
            for f in tagonly:
                if f.flags['exclude']:
                    continue
                R.ob('tag-only fields')
                for v in mp.okvals():
                    got = mp.ev.project(v, f.rust)
                    R.check(not io_derived(got), 'mapread:%s:%s' % (s, f.rust), 'tag-only field %s.%s takes its value from the cache file: %s' % (s, f.rust, show(got, 5)), where(fm))
        R.sample('%s: %s stay out of %s / %s' % (s, ', '.join(f.rust for f in hid[:4]), fr.p, fw.p), cap=6)
    for b in sorted(D.bitfields):
        opts = D.options(D.bitfields[b])
        if any(fl['cache_only'] or fl['non_cached'] for _, _, fl in opts):
            flags(P, R, D, b, opts)
    R.floor('cache-only or excluded fields', 180)
    R.floor('cache-only flag bits', 5)
    R.floor('tag-only fields', 8)


def flags(P, R, D, b, opts):
    from ..defs import rustname
    w = D.bitfields[b]['width']
    fr, fw, fm = (find(P, b, TAGDATA, m) for m in ('read_from_tag_file', 'write_to_tag_file', 'read_from_map'))
    if not (fr and fw and fm):
        R.viol('missing:' + b, 'flag set %s has cache-only bits but no tag-file specific reader and writer' % b)
        return
    rd, wr, mp = Plan(P, fr, 'at'), Plan(P, fw, 'at'), Plan(P, fm, 'address')
    me = mk('at', mk('arg', 'self'))
    for name, i, fl in opts:
        if fl['exclude']:
            continue
        fld = rustname(name)
        for plan, fn, hidden, what in ((rd, fr, fl['cache_only'], 'tag'), (mp, fm, fl['non_cached'], 'cache')):
            if not hidden:
                continue
            for v in plan.okvals():
                R.ob('cache-only flag bits')
                R.check(not io_derived_bit(plan.ev.project(v, fld), w), '%sread:%s:%s' % (what, b, fld), 'flag %s of %s takes its value from the %s file' % (fld, b, what), where(fn))
        if fl['cache_only']:
            for o in wr.ops:
                bs = bits(o.e.cont[0], w)
                R.ob('cache-only flag bits')
                R.check(bs[i] == 0, 'tagwrite:%s:%s' % (b, fld), 'bit %d (%s) of %s is not cleared when written to a tag file' % (i, fld, b), where(fw, o.e.line))
                src = mk('fld', me, fld)
                for j, x in enumerate(bs):
                    R.check(not (isinstance(x, tuple) and src in set(walk(x[0]))), 'tagwrite:%s:%s' % (b, fld), 'flag %s of %s is written to a tag file (bit %d)' % (fld, b, j), where(fw, o.e.line))


def io_derived_bit(v, w):
    c = cond_bit(v, w)
    if c is not None:
        return isinstance(c[0], tuple) and io_derived(c[0][0])
    return io_derived(v)
