"""C05: enumerators and flags have one number and one name, in both directions."""
from ..layout import *
from ..bits import bits, cond_bit
from ..defs import matcher, rustname, camel
from ..report import where

RULE = ('For every enumeration: the number written for each enumerator is its position in the definitions, reading that number yields that enumerator, no other number '
        'yields it, and text names map back to the enumerator they were produced from. For every flag set (bit-provenance domain): flag i is read from bit i only, '
        'written to bit i only, and no other bit is written.')
EXPLANATION = 'Constants are propagated per enumerator through the conversion bodies; flag sets are decided per bit symbolically. Order and names come from an independent reader of the definitions.'
DYN = 'ringhopper_primitives::dynamic::'


def cref(v):
    return mk('ref', False, mk('cst', v), ())


class LeafEv(Ev):
    """Stands in a known value for the leaf integer read."""
    leaf = None

    def pre(self, fr, st, c, args, b, line):
        if self.leaf is not None and is_io(c) and c.method.startswith('read') and c.args and c.args[0] in ('u8', 'u16', 'u32', 'i16'):
            return ok(self.leaf), st
        return None


def text(ev, st, v):
    c = ev.content(st, v)
    return c.a[1] if c.op == 'k' and c.a[0] == 'str' else None


def check(P, R):
    D = Defs()
    for n in sorted(D.enums):
        enum(P, R, D, n)
    for n in sorted(D.bitfields):
        bitfield(P, R, D, n)
    from ..defs import frozen, current
    froz, cur = frozen(), current(D)
    for kind in ('enums', 'bitfields'):
        for n, a in froz[kind].items():
            b = cur[kind].get(n)
            if b is None:
                continue
            R.check(a.get('width') == b.get('width'), 'format:' + n, 'flag set %s has %s bits, the released format has %s' % (n, b.get('width'), a.get('width')), 'src/ringhopper-definitions/json')
            for x, i in a.get('fields', a).items():
                y = b.get('fields', b).get(x)
                i0, y0 = (i[0], y and y[0]) if isinstance(i, list) else (i, y)
                R.ob('released format values')
                R.check(i0 == y0, 'format:%s:%s' % (n, x), '%s::%s has number %s in the definitions, the released format has %s' % (n, x, y0, i0), 'src/ringhopper-definitions/json')
    R.floor('enumerators', 1400)
    R.floor('flags', 600)


def enum(P, R, D, n):
    a = P.adts.get(S + n)
    fr, fw = find(P, n, SIMPLE, 'read'), find(P, n, SIMPLE, 'write')
    tf = P.fns.get('<%s%s as core::convert::TryFrom<u16>>::try_from' % (S, n))
    fs, ts, sv = (P.fns.get('<%s%s as %sDynamicEnumImpl>::%s' % (S, n, DYN, m)) for m in ('from_str', 'to_str', 'str_vals'))
    if not (a and fr and fw and fs and ts and sv):
        R.viol('missing:' + n, 'enumeration %s lacks a reader, writer or text conversion' % n)
        return
    for f in (fr, fw, fs, ts, sv):
        R.fn(f)
    opts = D.options(D.enums[n])
    variants = [v[0] for v in a['variants']]
    disc = {v[0]: int(v[1]) for v in a['variants']}
    used = [(name, i) for name, i, fl in opts if not fl['exclude']]
    ev = Ev(P)
    v, st = ev.run(sv)
    c = ev.content(st, v)
    names = [text(ev, st, x) for x in c.a[0]] if c.op == 'arr' else None
    want = [matcher(name) for name, _ in used]
    R.check(names == want, 'list:' + n, '%s lists its options as %s, the definitions give %s' % (n, names, want), where(sv))
    bynum = {i: vn for vn, i in disc.items()}
    R.check(sorted(bynum) == sorted(i for _, i in used), 'variants:' + n, '%s has enumerators numbered %s, the definitions number them %s' % (n, sorted(bynum), sorted(i for _, i in used)))
    seen = {}
    for name, i in used:
        R.ob('enumerators')
        vn = bynum.get(i)
        if vn is None:
            continue
        val = adt(S + n, vn, [])
        # write
        num = written(P, fw, val)
        R.check(num == i, 'write:%s:%s' % (n, vn), 'writing %s::%s stores %s, the definitions number it %d' % (n, vn, num, i), where(fw))
        # read back
        got = readback(P, fr, i)
        R.check(got == vn, 'read:%s:%s' % (n, vn), 'reading %d as %s yields %s, not %s' % (i, n, got, vn), where(fr))
        # text
        ev = Ev(P)
        v, st = ev.run(ts, args=[cref(val)])
        t = text(ev, st, v)
        R.check(t == matcher(name), 'name:%s:%s' % (n, vn), '%s::%s is named %r, the definitions name it %r' % (n, vn, t, matcher(name)), where(ts))
        R.check(t not in seen, 'dupname:%s:%s' % (n, vn), '%s::%s shares its name %r with %s' % (n, vn, t, seen.get(t)), where(ts))
        seen[t] = vn
        ev = Ev(P)
        v, st = ev.run(fs, args=[cref(K(matcher(name)))])
        R.check(v.op == 'adt' and v.a[1] == 'Some' and v.a[2][0][1] is val, 'parse:%s:%s' % (n, vn), 'parsing %r as %s gives %s, not %s' % (matcher(name), n, show(v), vn), where(fs))
    # unknown numbers / names never give a non-default enumerator
    if tf is not None:
        R.fn(tf)
        ev = Ev(P)
        x = mk('arg', 'value')
        v, st = ev.run(tf, args=[x])
        for y, fs_ in alts(v):
            if y.op == 'adt' and y.a[1] == 'Ok':
                z = y.a[2][0][1]
                num = [const_of(c, x) for c, t in fs_ if t and c.op == 'eq0']
                num = [k for k in num if k is not None]
                R.ob('accepting paths of number conversions')
                R.check(z.op == 'adt' and disc.get(z.a[1]) in num, 'accept:%s:%s' % (n, show(z, 3)), 'a number other than %s can be converted to %s' % (disc.get(z.a[1]) if z.op == 'adt' else '?', show(z, 3)), where(tf))
    if len(R.samples) < 4:
        R.sample('%s: %s' % (n, ', '.join('%d=%s' % (i, matcher(nm)) for nm, i in used[:5])))


def const_of(c, x):
    cst, p = lin_parts(c.a[0])
    it = list(p.items())
    if len(it) == 1 and it[0][0] is x and abs(it[0][1]) == 1:
        return -cst * it[0][1]
    return None


def written(P, fw, val):
    ev = Ev(P, opaque=lambda c: is_io(c) and c.args and c.args[0] in ('u8', 'u16', 'u32', 'i16'))
    v, st = ev.run(fw, args=[cref(val), mk('arg', 'data'), mk('arg', 'at'), mk('arg', 'struct_end')])
    w = [e for e in ev.events.values() if e.kind == 'call' and is_io(e.callee)]
    if len(w) != 1 or not iskint(w[0].cont[0]):
        return show(w[0].cont[0], 4) if len(w) == 1 else '%d values' % len(w)
    return w[0].cont[0].a[1]


def readback(P, fr, i):
    ev = LeafEv(P, opaque=lambda c: c.method == 'default')
    ev.leaf = K(i)
    v, st = ev.run(fr)
    res = set()
    for x, _ in alts(v):
        if x.op == 'adt' and x.a[1] == 'Ok':
            for z, _ in alts(x.a[2][0][1]):
                res.add(z.a[1] if z.op == 'adt' else show(z, 3))
    return res.pop() if len(res) == 1 else sorted(res)


def bitfield(P, R, D, n):
    w = D.bitfields[n]['width']
    a = P.adts.get(S + n)
    simple = find(P, n, SIMPLE, 'read')
    if simple:
        fr, fw = simple, find(P, n, SIMPLE, 'write')
    else:
        fr, fw = find(P, n, TAGDATA, 'read_from_tag_file'), find(P, n, TAGDATA, 'write_to_tag_file')
    fm = find(P, n, TAGDATA, 'read_from_map')
    if not (a and fr and fw):
        R.viol('missing:' + n, 'flag set %s lacks a reader or writer' % n)
        return
    leaf = 'u%d' % w
    opts = [(rustname(name), i, fl) for name, i, fl in D.options(D.bitfields[n]) if not fl['exclude']]
    have = [f[0] for f in a['variants'][0][2]]
    R.check(sorted(have) == sorted(x[0] for x in opts), 'flags:' + n, '%s has flags %s, the definitions list %s' % (n, have, [x[0] for x in opts]))
    R.fn(fr), R.fn(fw)
    me = mk('at', mk('arg', 'self'))
    for fn, pos, hid in ((fr, 'at', 'cache_only'), (fm, 'address', 'non_cached')):
        if fn is None:
            continue
        p = Plan(P, fn, pos)
        reads = [o for o in p.ops if o.kind == 'read']
        if len(reads) != 1 or reads[0].type != leaf or reads[0].off != 0:
            R.viol('leaf:%s:%s' % (n, fn.n), '%s is read as %s instead of one %s' % (n, [(o.type, o.off) for o in reads], leaf), where(fn))
            continue
        src = p.ev.project(reads[0].call, 'Ok.0')
        for name, i, fl in opts:
            R.ob('flags')
            if fl[hid]:
                continue
            for v in p.okvals():
                got = p.ev.project(v, name)
                c = boolv(got, w)
                R.check(c == ((src, i), True), 'read:%s:%s:%s' % (n, fn.n, name), 'flag %s of %s is not read from bit %d (%s)' % (name, n, i, show(got, 5)), where(fn))
    p = Plan(P, fw, 'at')
    ws = [o for o in p.ops if o.kind == 'write']
    if len(ws) != 1 or ws[0].type != leaf or ws[0].off != 0:
        R.viol('leaf:%s:write' % n, '%s is written as %s instead of one %s' % (n, [(o.type, o.off) for o in ws], leaf), where(fw))
        return
    bs = bits(ws[0].e.cont[0], w)
    exp = {i: (mk('fld', me, name), 0) for name, i, fl in opts if not fl['cache_only']}
    for i in range(w):
        R.ob('written bits')
        R.check(bs[i] == exp.get(i, 0), 'write:%s:%d' % (n, i), 'bit %d of %s is written from %s, expected %s' % (i, n, bitname(bs[i]), bitname(exp.get(i, 0))), where(fw))


def boolv(v, w):
    c = cond_bit(v, w)
    if c is not None:
        return c
    a = PHI.get(v)
    if a and all(x.op == 'k' and x.a[0] == 'bool' for x, _, _ in a):
        # if (cond) true else false
        for k in {k for _, f, _ in a for k, _ in f}:
            pol = [dict(f).get(k) for _, f, _ in a]
            if None not in pol and all((x.a[1] == t) == (a[0][0].a[1] == pol[0]) for (x, _, _), t in zip(a, pol)):
                c = cond_bit(k, w)
                if c is not None:
                    return c[0], (c[1] == (a[0][0].a[1] == pol[0]))
    return None


def bitname(b):
    return b if not isinstance(b, tuple) else 'bit %d of %s' % (b[1], show(b[0], 4))
