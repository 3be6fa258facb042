"""C02: cache-file structure layout: what is read for each field, from where, and the shifted-by-one fields."""
from ..layout import *
from ..report import where
from .c04 import bounds_and_arrays

RULE = ('For every structure the body that reads it from a cache file is abstractly evaluated; each field present in caches must be read once, '
        'with the defined type, at the defined distance from the structure address, in the same domain of the same map, and its value must reach that field; '
        'a field the definitions mark as shifted by one must be the stored 16-bit number plus one.')
EXPLANATION = 'Offsets, types, presence and shift flags come from an independent reader of the JSON definitions (rhsa/defs.py).'


def check(P, R):
    D = Defs()
    A = lambda n: mk('arg', n)
    blanket = P.fns.get('<T as %s>::read_from_map' % TAGDATA)
    if blanket is None:
        R.viol('blanket', 'the adaptor through which simple values are read from caches was not found')
    for s in sorted(D.structs):
        fields = [f for f in D.fields(s) if f.kind != 'pad']
        if find(P, s, SIMPLE, 'read'):
            # laid out identically in both kinds of file; checked once through the blanket adaptor and C01
            R.ob('structures read through the simple-value adaptor')
            for f in fields:
                R.check(not f.flags['shifted_by_one'], 'shift:%s:%s' % (s, f.rust), '%s.%s is stored shifted by one in caches but the structure is read as is' % (s, f.rust))
            continue
        fn = find(P, s, TAGDATA, 'read_from_map')
        R.ob('structures with their own cache reader')
        if fn is None:
            R.viol('missing:' + s, 'no cache reader found for structure %s' % s)
            continue
        R.fn(fn)
        plan = Plan(P, fn, 'address')
        R.check(bool(plan.ok or plan.tail), 'noreturn:' + s, 'the cache reader of %s never returns Ok' % s, where(fn))
        by = {f.off: f for f in fields}
        seen = {}
        for o in plan.ops:
            w = where(fn, o.e.line)
            if o.kind != 'read' or o.order != 'map':
                R.viol('kind:' + s, 'the cache reader of %s performs a tag-file %s' % (s, o.kind), w)
                continue
            f = by.get(o.off) if o.off is not None else None
            if f is None:
                R.viol('stray:%s:%s:%s' % (s, o.type, o.off), 'the cache reader of %s reads a %s at offset %s, where the definitions have no field' % (s, o.type, o.off), w)
                continue
            if f.off in seen:
                R.viol('twice:%s:%s' % (s, f.rust), 'the cache reader of %s reads field %s twice' % (s, f.rust), w)
            seen[f.off] = o
            R.check(o.e.args[0] is A('map') and o.e.args[2] is A('domain_type'), 'domain:%s:%s' % (s, f.rust),
                    'field %s.%s is not read from the map and domain its structure is read from' % (s, f.rust), w)
            if not f.in_maps:
                continue  # C03
            t = ftype(f)
            if f.type == 'BSPVertexData':
                want = [plan.ev.project(plan.ev.project(x, 'Ok.0'), y) for x in (callat(plan, D, s, 'rendered_vertices'), callat(plan, D, s, 'lightmap_vertices')) for y in ('vertex_count', 'offset')] if callat(plan, D, s, 'rendered_vertices') is not None else []
                R.check(o.e.callee.method == 'read_from_map_with_offset' and o.e.args[3] is K(f.rust.startswith('compressed')) and list(o.e.args[4:]) == want,
                        'vertices:%s:%s' % (s, f.rust), '%s.%s is not read as %s vertices with the counts and offsets of the rendered and lightmap vertex references' % (s, f.rust, 'compressed' if f.rust.startswith('compressed') else 'uncompressed'), w)
            elif f.flags['shifted_by_one']:
                R.check(o.type == 'u16', 'type:%s:%s' % (s, f.rust), 'the cache reader of %s reads shifted field %s as %s, not as a 16-bit number' % (s, f.rust, o.type), w)
            else:
                R.check(o.type == t, 'type:%s:%s' % (s, f.rust), 'the cache reader of %s reads field %s as %s, the definitions say %s' % (s, f.rust, o.type, t), w)
            R.check(plan.completes(o), 'skippable:%s:%s' % (s, f.rust), 'the cache reader of %s can report success without having read field %s' % (s, f.rust), w)
        for f in fields:
            if not f.in_maps:
                continue
            R.ob('cache field reads')
            o = seen.get(f.off)
            if o is None:
                R.viol('nofield:%s:%s' % (s, f.rust), 'field %s of %s (offset %d) is never read from caches' % (f.rust, s, f.off), where(fn))
                continue
            val = plan.ev.project(o.call, 'Ok.0')
            for v in plan.okvals():
                got = plan.ev.project(v, f.rust)
                if f.flags['shifted_by_one']:
                    R.ob('shifted fields')
                    R.check(shifted(plan, P, D, f, got, val), 'shift:%s:%s' % (s, f.rust), 'field %s.%s is stored minus one in caches, but the value read is %s' % (s, f.rust, show(got, 6)), where(fn, o.e.line))
                else:
                    R.check(got is val, 'flow:%s:%s' % (s, f.rust), 'the value read at offset %d of %s does not reach field %s (it holds %s)' % (f.off, s, f.rust, show(got, 5)), where(fn, o.e.line))
        if len(R.samples) < 6 and fields:
            R.sample('%s: %s' % (fn.p, ', '.join('%s@%s' % (o.type, o.off) for o in plan.ops[:6])))
    if blanket is not None:
        check_blanket(P, R, blanket)
    bounds_and_arrays(P, R, (('read_from_map', 'address'),))
    R.floor('bounds codecs', 1)
    R.floor('cache field reads', 2700)
    R.floor('structures with their own cache reader', 300)
    R.floor('shifted fields', 4)


def callat(plan, D, s, name):
    for f in D.fields(s):
        if f.rust == name:
            for o in plan.ops:
                if o.off == f.off:
                    return o.call
    return None


def shifted(plan, P, D, f, got, raw):
    """got enumerates the options of the enum, option i exactly when raw + 1 == i (mod 2^16)."""
    names = D.options(D.enums[f.inner])
    a = P.adts[S + f.inner]
    disc = {v[0]: int(v[1]) for v in a['variants']}
    seen = set()
    for x, fs in alts(got):
        if x.op != 'adt' or x.a[1] not in disc:
            return False
        i = disc[x.a[1]]
        ok = False
        for c, t in fs:
            if c.op == 'eq0' and t and raw in set(walk(c)):
                ok = ok or eval_is(c.a[0], raw, i)
        if not ok:
            return False
        seen.add(i)
    return seen == {i for _, i, fl in names if not fl['exclude']}


def eval_is(lhs, raw, i):
    """lhs == 0 holds for raw = (i - 1) mod 2^16 and for no other 16-bit raw."""
    x = (i - 1) & 0xffff
    v = const(lhs, raw, x)
    return v == 0 and all(const(lhs, raw, y) != 0 for y in (i & 0xffff, (i + 1) & 0xffff, (i - 2) & 0xffff))


def const(v, raw, x):
    if v is raw:
        return x
    if iskint(v):
        return v.a[1]
    if v.op == 'lin':
        c, p = lin_parts(v)
        s = c
        for t, k in p.items():
            y = const(t, raw, x)
            if y is None:
                return None
            s += k * y
        return s
    if v.op == 'wrap':
        y = const(v.a[0], raw, x)
        return None if y is None else y & 0xffff
    if v.op in ('bin', 'call', 'wrapping') and len(v.a) >= 3:
        if v.op == 'call' and v.a[0].endswith('wrapping_add'):
            y = [const(t, raw, x) for t in v.a[2]]
            return None if None in y else (y[0] + y[1]) & 0xffff
    return None


def check_blanket(P, R, fn):
    """simple values: exactly simple_size bytes are taken at the address from the domain and decoded as little endian."""
    R.fn(fn)
    R.ob('simple-value adaptors')
    ev = Ev(P, opaque=lambda c: is_io(c) or c.method in ('simple_size', 'get_data_at_address', 'get_domain'))
    v, st = ev.run(fn)
    rd = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method == 'read']
    gd = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method == 'get_data_at_address']
    good = len(rd) == 1 and len(gd) == 1
    if good:
        g, r = gd[0], rd[0]
        good = [a for a in g.args[:3]] == [mk('arg', 'map'), mk('arg', 'address'), mk('arg', 'domain_type')] and g.args[3].op == 'call' and g.args[3].a[0].endswith('simple_size')
        good = good and short(r.callee.args[-1]) == 'LittleEndian' and r.args[1] is K(0) and r.cont[0] in (ev.content(st, ev.project(g.val, 'Some.0')), mk('at', ev.project(g.val, 'Some.0')), ev.project(g.val, 'Some.0'))
        for x, _ in alts(v):
            good = good and ((x.op == 'adt' and x.a[1] == 'Err') or x is r.val or (x.op == 'adt' and x.a[1] == 'Ok' and x.a[2][0][1] is ev.project(r.val, 'Ok.0')))
    R.check(good, 'blanket:read', 'the simple-value cache adaptor does not decode, as little endian, exactly the bytes found at the requested address', where(fn))
