"""C04: every primitive value occupies the bytes the format gives it, and writing emits exactly what reading consumed."""
from ..layout import *
from ..bits import bits
from ..report import where
import re

RULE = ('Each primitive\'s read body is abstractly evaluated down to the leaf loads (byte offset, width, byte order parameter); its write body is then evaluated on the '
        'value read. Every leaf store must hold exactly the load of the same offset and width, in the same byte order, with no byte left out or written twice; fields '
        'sit at the offsets of a frozen table of the published format; the declared size equals the bytes covered.')
EXPLANATION = ('Float widening f32 to f64 and back is taken as value preserving (it is, up to NaN payload). Tag group four-character codes are inverted by C12\'s table, '
               'text is copied bytewise.')
PRIM_ = 'ringhopper_primitives::'
W = {'u16': 2, 'u32': 4, 'i16': 2, 'i32': 4, 'u64': 8, 'f32': 4, 'f64': 8}

# published Halo tag format: field path -> (offset, stored type)
V2 = 'x:f32@0 y:f32@4'
V3 = V2 + ' z:f32@8'
FORMAT = {
    'bool': ':u8@0', 'u8': ':u8@0', 'i8': ':u8@0', 'u16': ':u16@0', 'i16': ':u16@0', 'u32': ':u32@0', 'i32': ':u32@0', 'f64': ':f32@0', 'usize': ':u32@0',
    'Option<u16>': ':u16@0',
    'ColorARGBFloat': 'alpha:f32@0 red:f32@4 green:f32@8 blue:f32@12', 'ColorRGBFloat': 'red:f32@0 green:f32@4 blue:f32@8',
    'ColorARGBInt': 'color:u32@0', 'ColorARGBIntBytes': 'alpha:u32@0 red:u32@0 green:u32@0 blue:u32@0',
    'Address': 'address:u32@0', 'ID': 'id:u32@0', 'ScenarioScriptNodeValue': 'data:u32@0',
    'Vector2D': V2, 'Vector3D': V3, 'Vector2DInt': 'x:u16@0 y:u16@2', 'Plane2D': 'vector.x:f32@0 vector.y:f32@4 d:f32@8',
    'Plane3D': 'vector.x:f32@0 vector.y:f32@4 vector.z:f32@8 d:f32@12', 'Angle': 'angle:f32@0', 'Euler2D': 'yaw.angle:f32@0 pitch.angle:f32@4',
    'Euler3D': 'yaw.angle:f32@0 pitch.angle:f32@4 roll.angle:f32@8', 'Quaternion': 'x:f32@0 y:f32@4 z:f32@8 w:f32@12',
    'Rectangle': 'top:u16@0 left:u16@2 bottom:u16@4 right:u16@6', 'CompressedFloat': 'data:u16@0', 'CompressedVector2D': 'data:u32@0', 'CompressedVector3D': 'data:u32@0',
    'Matrix3x3': ' '.join('vectors.%d.%s:f32@%d' % (i, c, 12 * i + 4 * j) for i in range(3) for j, c in enumerate('xyz')),
}
SIZES = {'bool': 1, 'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f64': 4, 'usize': 4, 'Option<u16>': 2}
ARGB_BITS = {'alpha': 24, 'red': 16, 'green': 8, 'blue': 0}
# composites: (field, type, offset)
COMPOSITE = {
    'DataC': [('size', 'u32', 0), ('flags', 'u32', 4), ('file_offset', 'u32', 8), ('address', 'Address', 12), ('padding', 'Padding<[u8; 4]>', 16)],
    'ReflexiveC': [('count', 'u32', 0), ('address', 'Address', 4), ('padding', 'Padding<[u8; 4]>', 8)],
    'TagReferenceC': [('tag_group', 'TagGroup', 0), ('path_address', 'Address', 4), ('path_length', 'u32', 8), ('tag_id', 'ID', 12)],
    'TagFileHeader': [('id', 'ID', 0), ('string', 'String32', 4), ('group', 'TagGroup', 36), ('crc32', 'u32', 40), ('header_size', 'u32', 44),
                      ('padding', 'Padding<[u8; 8]>', 48), ('version', 'u16', 56), ('u16_255', 'u16', 58), ('blam_fourcc', 'u32', 60)],
}
TSIZE = {'u32': 4, 'u16': 2, 'Address': 4, 'ID': 4, 'TagGroup': 4, 'String32': 32, 'Padding<[u8; 4]>': 4, 'Padding<[u8; 8]>': 8}
DATA, AT = mk('arg', 'data'), mk('arg', 'at')


def impls(P):
    out = {}
    for p, f in P.fns.items():
        if f.crate == 'ringhopper_primitives' and f.trait == SIMPLE and f.n in ('read', 'write', 'simple_size'):
            st = short(f.selfty or '')
            out.setdefault(st, {})[f.n] = f
    return out


def leaf_of(v):
    """(offset, width) when v is exactly a load of that width at a constant distance from `at` in the input."""
    if v.op == 'call' and v.a[0].startswith('byteorder::ByteOrder::read_'):
        src = v.a[2][0]
        w = W.get(v.a[0].rsplit('_', 1)[1])
        if src.op == 'slice' and root(src.a[0]) and w:
            d = sub(src.a[1], AT)
            if iskint(d):
                return d.a[1], w, v.a[1][0]
        if root(src) and iskint(sub(K(0), AT)):
            return 0, w, v.a[1][0]
    if v.op == 'idx' and root(v.a[0]) and v.a[1].op == 'ix':
        d = sub(v.a[1].a[0], AT)
        if iskint(d):
            return d.a[1], 1, None
    return None


def root(v):
    while v.op == 'welem':
        v = v.a[0]
    return v is mk('at', DATA)


def leaves(v):
    out = set()
    for x in walk(v):
        l = leaf_of(x)
        if l:
            out.add(l)
    return out


def simplify(v):
    """Undo value-preserving conversion pairs."""
    o = v.op
    if o == 'cast':
        t = v.a[1]
        x = simplify(v.a[0])
        if t == 'f64>f32' and x.op == 'cast' and x.a[1] == 'f32>f64':
            return x.a[0]
        return mk('cast', x, t)
    if o == 'call' and len(v.a[2]) == 1:
        x = simplify(v.a[2][0])
        nm = v.a[0]
        for a, b in (('to_bits', 'from_bits'), ('from_bits', 'to_bits')):
            if nm.endswith('f32::' + a) and x.op == 'call' and x.a[0].endswith('f32::' + b):
                return x.a[2][0]
        return mk('call', nm, v.a[1], (x,), v.a[3])
    return v


def same(v, off, width):
    """the stored value v equals the load at (off, width)"""
    v = simplify(v)
    l = leaf_of(v)
    if l is not None:
        return l[:2] == (off, width)
    if v.op == 'phi':
        res = []
        for x, fs in alts(v):
            if same(x, off, width):
                continue
            if x.op == 'k' and any(t and c.op == 'eq0' and is_const_of(c, off, width, x.a[1]) for c, t in fs):
                continue
            return False
        return True
    # bitwise recomposition
    bs = bits(v, 8 * width, lambda y: 8 * (leaf_of(y) or (0, 8))[1])
    for i, b in enumerate(bs):
        if not isinstance(b, tuple) or b[1] != i:
            return False
        l = leaf_of(b[0])
        if l is None or l[:2] != (off, width):
            return False
    return True


def is_const_of(c, off, width, k):
    cst, p = lin_parts(c.a[0])
    it = list(p.items())
    if len(it) != 1 or abs(it[0][1]) != 1:
        return False
    l = leaf_of(it[0][0])
    return l is not None and l[:2] == (off, width) and -cst * it[0][1] == k


def leaf_writes(ev, P):
    out = []
    bad = []
    for e in ev.events.values():
        if e.kind != 'call':
            continue
        n = e.callee.norm
        if n.startswith('byteorder::ByteOrder::write_'):
            t = e.args[0]
            w = W.get(n.rsplit('_', 1)[1])
            if t.op == 'ref' and t.a[1] is DATA and len(t.a[2]) == 1 and t.a[2][0].op == 'slc':
                d = sub(t.a[2][0].a[0], AT)
                if iskint(d):
                    out.append((d.a[1], w, e.args[1], e.callee.args[0], e))
                    continue
            bad.append(e)
    for r, path, v, fn, line in ev.stores:
        if r is DATA and len(path) == 1 and isinstance(path[0], V) and path[0].op == 'ix':
            d = sub(path[0].a[0], AT)
            if iskint(d):
                out.append((d.a[1], 1, v, None, None))
                continue
        if r is DATA:
            bad.append((r, path, v))
    return out, bad


def byteval(v):
    """a byte stored: i8/u8/bool casts"""
    while v.op == 'cast' and v.a[1] in ('i8>u8', 'u8>i8'):
        v = v.a[0]
    return v


def proj(ev, v, path):
    for e in path.split('.'):
        if e:
            v = ev.project(v, e)
    return v


def check(P, R):
    im = impls(P)
    for t, fmt in sorted(FORMAT.items()):
        fs = im.get(t)
        if not fs or len(fs) != 3:
            R.viol('missing:' + t, 'no reader/writer/size found for primitive %s' % t)
            continue
        for f in fs.values():
            R.fn(f)
        R.ob('primitives')
        primitive(P, R, t, fmt, fs)
    for t, fmt in sorted(COMPOSITE.items()):
        fs = next((im[k] for k in im if k.split('<')[0] == t), None)
        if not fs or len(fs) != 3:
            R.viol('missing:' + t, 'no reader/writer/size found for primitive %s' % t)
            continue
        for f in fs.values():
            R.fn(f)
        R.ob('primitives')
        composite(P, R, t, fmt, fs)
    group(P, R, im)
    padding(P, R, im)
    string32(P, R, im)
    bounds_and_arrays(P, R)
    known = set(FORMAT) | set(COMPOSITE) | {'TagGroup', 'Padding', 'String32', '[T; U]'}
    for t in im:
        R.check(t in known or t.split('<')[0] in known, 'uncovered:' + t, 'primitive %s has no entry in the format table, so its layout is not established' % t)
    R.floor('primitives', 33)
    R.floor('leaf stores', 60)


def primitive(P, R, t, fmt, fs):
    want = {}
    for x in fmt.split():
        path, rest = x.split(':')
        ty, off = rest.split('@')
        want[path] = (int(off), {'u8': 1, 'u16': 2, 'u32': 4, 'f32': 4}[ty])
    rd, wr = fs['read'], fs['write']
    ev = StoreEv(P)
    v, st = ev.run(rd)
    oks = [(x.a[2][0][1], f) for x, f in alts(v) if x.op == 'adt' and x.a[1] == 'Ok']
    calls = [x for x, f in alts(v) if x.op != 'adt']
    if not oks or calls:
        R.viol('read:' + t, 'reading %s does not produce a value the analysis can follow (%s)' % (t, show(v, 4)), where(rd))
        return
    n = consteval(P, fs['simple_size'])
    R.check(n == max(o + w for o, w in want.values()), 'size:' + t, 'the stored size of %s is reported as %s, the format uses %d bytes' % (t, n, max(o + w for o, w in want.values())), where(fs['simple_size']))
    for val, facts in oks:
        for path, (off, w) in want.items():
            R.ob('field loads')
            got = proj(ev, val, path)
            ls = leaves(got) | (leaves_facts(got))
            if t == 'Option<u16>' and not ls:
                ls = {l for c, b in facts for l in leaves(c)}
            R.check({l[:2] for l in ls} == {(off, w)}, 'load:%s:%s' % (t, path), '%s%s is read from bytes %s, the format stores it in %d bytes at offset %d' % (t, path and '.' + path, sorted(l[:2] for l in ls), w, off), where(rd))
            R.check(all(l[2] in ('B', None) for l in ls), 'order:%s:%s' % (t, path), '%s%s is read with a fixed byte order %s' % (t, path and '.' + path, ls), where(rd))
            if t == 'ColorARGBIntBytes':
                bs = bits(got, 8)
                R.check(all(isinstance(b, tuple) and b[1] == i + ARGB_BITS[path] and leaf_of(b[0]) for i, b in enumerate(bs)), 'bits:%s:%s' % (t, path), '%s.%s does not hold bits %d..%d of the colour' % (t, path, ARGB_BITS[path], ARGB_BITS[path] + 7), where(rd))
        # write the value just read
        e2 = StoreEv(P)
        s2 = State(dict(), {})
        fa = tuple((c, b) for c, b in facts if c.op in ('eq0', 'le0', 'isv'))
        e2.run(wr, args=[mk('ref', False, mk('cst', val), ()), DATA, AT, mk('arg', 'struct_end')], facts=fa)
        ws, bad = leaf_writes(e2, P)
        R.check(not bad, 'store?:' + t, 'writing %s stores at a place the analysis cannot relate to the value: %s' % (t, bad[:1]), where(wr))
        cover = {}
        for off, w, x, order, e in ws:
            R.ob('leaf stores')
            for b in range(off, off + w):
                cover[b] = cover.get(b, 0) + 1
            R.check(order in ('B', None), 'worder:%s:%d' % (t, off), 'writing %s uses the fixed byte order %s at offset %d' % (t, order, off), where(wr))
            x = byteval(x) if w == 1 else narrow(x)
            good = same(x, off, w) or (t == 'bool' and boolsame(x)) or (t == 'Option<u16>' and optsame(x, facts, off, w))
            R.check(good, 'store:%s:%d' % (t, off), 'writing %s stores at offset %d something other than what was read there: %s' % (t, off, show(x, 7)), where(wr))
        R.check(cover == {b: 1 for b in range(n or 0)}, 'cover:' + t, 'writing %s covers bytes %s, not each of its %s bytes once' % (t, sorted(cover), n), where(wr))
    if len(R.samples) < 6:
        R.sample('%s: %s; stores %s' % (t, fmt, [(o, w) for o, w, *_ in ws]))


def leaves_facts(v):
    out = set()
    if v.op == 'phi':
        for x, fs in alts(v):
            for c, b in fs:
                out |= leaves(c)
            out |= leaves(x)
    return out


def narrow(x):
    # usize held in memory as 64 bits, stored as 32
    while x.op == 'cast' and x.a[1] in ('usize>u32', 'u64>u32') and x.a[0].op != 'cast':
        x = x.a[0]
    return x


def boolsame(x):
    # stored 0/1 from the truth of the byte read: re-reading gives the same bool
    if x.op == 'cast' and x.a[1] == 'int':
        c = x.a[0]
        neg = False
        while c.op == 'not':
            c, neg = c.a[0], not neg
        return neg and c.op == 'eq0' and leaf_of(c.a[0]) is not None
    if x.op == 'phi':
        return all(y.op == 'k' and any(c.op == 'eq0' and leaf_of(c.a[0]) and b == (y.a[1] == 0) for c, b in fs) for y, fs in alts(x))
    return False


def optsame(x, facts, off, w):
    return x.op == 'k' and any(b and c.op == 'eq0' and is_const_of(c, off, w, x.a[1]) for c, b in facts)


def composite(P, R, t, fmt, fs):
    rd, wr = Plan(P, fs['read'], 'at'), Plan(P, fs['write'], 'at')
    n = consteval(P, fs['simple_size'])
    last = fmt[-1] if t != 'DataC' else fmt[-1]
    total = sum(TSIZE[x[1]] for x in fmt)
    R.check(n == total, 'size:' + t, 'the stored size of %s is reported as %s, the format uses %d bytes' % (t, n, total), where(fs['simple_size']))
    me = mk('at', mk('arg', 'self'))
    for fld, ty, off in fmt:
        R.ob('composite fields')
        here = [o for o in rd.ops if o.off == off and o.kind == 'read']
        if ty.startswith('Padding'):
            for o in here:
                R.check(norm_ty(o.type) == norm_ty(ty), 'pad:%s:%d' % (t, off), 'padding of %s is read as %s' % (t, o.type), where(fs['read']))
        elif len(here) != 1:
            R.viol('load:%s:%s' % (t, fld), '%s.%s is read by %d operations at offset %d' % (t, fld, len(here), off), where(fs['read']))
        else:
            o = here[0]
            okty = {ty} | ({'u32'} if ty in ('TagGroup', 'ID', 'Address') else set())
            R.check(o.type in okty and o.order == 'B', 'type:%s:%s' % (t, fld), '%s.%s is read as %s (byte order %s) at offset %d, the format has %s' % (t, fld, o.type, o.order, off, ty), where(fs['read']))
            src = o.call
            for v in rd.okvals():
                got = rd.ev.project(v, fld)
                deps = {x for x in walk(got) if x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in IO}
                if got.op == 'phi' and not deps:
                    # chosen by a table lookup: the table is C12's, the key must be what was read
                    deps = {x for _, f_ in alts(got) for c, b in f_ for x in walk(c) if c.op == 'eq0' and x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in IO}
                R.check(deps == {src}, 'flow:%s:%s' % (t, fld), '%s.%s does not hold what was read at offset %d: %s' % (t, fld, off, show(got, 6)), where(fs['read']))
                # the value must be that read, or a documented replacement for an unset reference
                for x, f_ in alts(got):
                    R.check(x is rd.ev.project(src, 'Ok.0') or io_derived(x) or (t, fld) in CANON, 'value:%s:%s' % (t, fld), '%s.%s can become %s regardless of the file' % (t, fld, show(x, 5)), where(fs['read']))
        hw = [o for o in wr.ops if o.off == off and o.kind == 'write']
        if not hw:
            R.viol('store:%s:%s' % (t, fld), '%s.%s is not written at offset %d' % (t, fld, off), where(fs['write']))
        for o in hw:
            R.check(o.order == 'B' and norm_ty(o.type) in (norm_ty(ty), 'u32'), 'wtype:%s:%s' % (t, fld), '%s.%s is written as %s (byte order %s) at offset %d, the format has %s' % (t, fld, o.type, o.order, off, ty), where(fs['write'], o.e.line))
            x = o.e.cont[0]
            ok_ = x is mk('fld', me, fld) or (mk('fld', me, fld) in set(walk(x)) and norm_ty(o.type) == 'u32') or ((t, fld) in CANON and x is K(0))
            R.check(ok_, 'wflow:%s:%s' % (t, fld), '%s.%s: what is written at offset %d is %s' % (t, fld, off, show(x, 5)), where(fs['write'], o.e.line))
    offs = {x[2] for x in fmt}
    for p, nm in ((rd, 'read'), (wr, 'write')):
        for o in p.ops:
            R.check(o.off in offs, 'stray:%s:%s:%s' % (t, nm, o.off), '%s of %s touches offset %s' % (nm, t, o.off), where(fs[nm], o.e.line))


CANON = {('TagReferenceC', 'tag_id'), ('TagReferenceC', 'tag_group'), ('TagFileHeader', 'id')}  # unset id 0 / unknown group are read as "none"


def norm_ty(t):
    return re.sub(r'\s', '', t)


def group(P, R, im):
    fs = im.get('TagGroup')
    if not fs:
        R.viol('missing:TagGroup', 'no reader found for tag groups')
        return
    R.ob('primitives')
    rd = Plan(P, fs['read'], 'at')
    wr = Plan(P, fs['write'], 'at')
    R.check([(o.kind, o.type, o.off, o.order) for o in rd.ops] == [('read', 'u32', 0, 'B')], 'load:TagGroup', 'a tag group is not read as one 32-bit number at its own offset', where(fs['read']))
    R.check([(o.kind, o.type, o.off, o.order) for o in wr.ops] == [('write', 'u32', 0, 'B')], 'store:TagGroup', 'a tag group is not written as one 32-bit number at its own offset', where(fs['write']))
    R.check(consteval(P, fs['simple_size']) == 4, 'size:TagGroup', 'the stored size of a tag group is not 4', where(fs['simple_size']))


def padding(P, R, im):
    fs = next((im[k] for k in im if k.startswith('Padding')), None)
    if not fs:
        R.viol('missing:Padding', 'no reader found for padding')
        return
    R.ob('primitives')
    ev = StoreEv(P)
    ev.run(fs['write'])
    fills = [e for e in ev.events.values() if e.kind == 'call' and e.callee.norm.endswith('slice::fill')]
    good = len(fills) == 1 and fills[0].args[1] is K(0) and not ev.stores
    if good:
        a = fills[0].args[0]
        sz = Ev(P).run(fs['simple_size'])[0]
        good = a.op == 'ref' and a.a[1] is DATA and len(a.a[2]) == 1 and a.a[2][0].op == 'slc' and a.a[2][0].a[0] is AT and sub(a.a[2][0].a[1], AT) is sz
    R.check(good, 'store:Padding', 'writing padding does not zero exactly its own bytes', where(fs['write']))


def string32(P, R, im):
    fs = im.get('String32')
    if not fs:
        R.viol('missing:String32', 'no reader found for String32')
        return
    R.ob('primitives')
    R.check(consteval(P, fs['simple_size']) == 32, 'size:String32', 'the stored size of a String32 is not 32', where(fs['simple_size']))
    ev = StoreEv(P)
    ev.run(fs['write'])
    ws = [e for e in ev.events.values() if e.kind == 'call' and e.callee.norm.endswith(('clone_from_slice', 'copy_from_slice'))]
    good = len(ws) == 1 and not ev.stores
    if good:
        a = ws[0].args[0]
        good = a.op == 'ref' and a.a[1] is DATA and len(a.a[2]) == 1 and a.a[2][0].op == 'slc' and a.a[2][0].a[0] is AT and sub(a.a[2][0].a[1], AT) is K(32)
        c = ws[0].cont[1]
        good = good and c is mk('fld', mk('at', mk('arg', 'self')), 'string_data')
    R.check(good, 'store:String32', 'writing a String32 does not copy exactly its 32 bytes to its own offset', where(fs['write']))
    ev = StoreEv(P, opaque=lambda c: c.method == 'from_bytes_lossy')
    v, st = ev.run(fs['read'])
    oks = [x.a[2][0][1] for x, f in alts(v) if x.op == 'adt' and x.a[1] == 'Ok']
    good = len(oks) == 1 and oks[0].op == 'call' and oks[0].a[0].endswith('from_bytes_lossy')
    if good:
        src = oks[0].a[2][0]
        good = any(x.op == 'slice' and root(x.a[0]) and x.a[1] is AT and sub(x.a[2], AT) is K(32) for x in walk(src))
    R.check(good, 'load:String32', 'a String32 is not read from exactly its own 32 bytes', where(fs['read']))


def bounds_and_arrays(P, R, methods=(('read_from_tag_file', 'at'), ('write_to_tag_file', 'at'), ('read_from_map', 'address'))):
    """Bounds<T>: lower at +0, upper at +size of T, in every codec."""
    B = 'ringhopper_primitives::primitive::array::Bounds<T>'
    sz = None
    for meth, pos in methods:
        f = P.fns.get('<%s as %s>::%s' % (B, TAGDATA, meth))
        if f is None:
            R.viol('missing:Bounds:' + meth, 'no %s found for bounds' % meth)
            continue
        R.fn(f)
        R.ob('bounds codecs')
        ev = StoreEv(P, opaque=lambda c: is_io(c) or (c.method in ('size', 'simple_size')))
        v, st = ev.run(f)
        p0 = mk('arg', pos)
        ops = [e for e in ev.events.values() if e.kind == 'call' and is_io(e.callee)]
        size = [e.val for e in ev.events.values() if e.kind == 'call' and e.callee.method in ('size', 'simple_size') and e.callee.args and short(e.callee.args[0]) == 'T']
        if len(ops) != 2 or not size:
            R.viol('ops:Bounds:' + meth, 'bounds are not read/written as two values', where(f))
            continue
        for e in ops:
            R.check(short(e.callee.args[0]) == 'T', 'type:Bounds:' + meth, 'a bound is read/written as %s' % short(e.callee.args[0]), where(f, e.line))
            if meth == 'read_from_map':
                R.check(e.args[0] is mk('arg', 'map') and e.args[2] is mk('arg', 'domain_type'), 'domain:Bounds', 'a bound is not read from the map and domain of its structure', where(f, e.line))
        for i, e in enumerate(sorted(ops, key=lambda e: e.args[2 if meth[0] == 'w' else 1] is not p0)):
            off = sub(e.args[2 if meth[0] == 'w' else 1], p0)
            R.check((off is K(0)) if i == 0 else off is size[0], 'off:Bounds:%s:%d' % (meth, i), 'the %s bound is not at %s' % (('lower', 'the start') if i == 0 else ('upper', 'the size of one value')), where(f, e.line))
            fld = ('lower', 'upper')[i]
            if meth[0] == 'w':
                R.check(e.cont[0] is mk('fld', mk('at', mk('arg', 'self')), fld), 'flow:Bounds:%s:%s' % (meth, fld), 'what is written as %s bound is %s' % (fld, show(e.cont[0], 4)), where(f, e.line))
            else:
                for x, _ in alts(v):
                    if x.op == 'adt' and x.a[1] == 'Ok':
                        R.check(ev.project(x.a[2][0][1], fld) is ev.project(e.val, 'Ok.0'), 'flow:Bounds:%s:%s' % (meth, fld), 'the %s bound is not what was read at its offset' % fld, where(f, e.line))
