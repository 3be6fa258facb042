"""C25: variable-length values: element count, element order and stride, what is consumed and what is emitted."""
from ..layout import *
from ..loops import *
from ..report import where

RULE = ('For every variable-length value (reflexives, the data kinds, tag references, fixed arrays) and each codec: the header is read/written at the value\'s own place; '
        'a loop over elements covers 0..count exactly, addresses form the progression start + i * element size, the collection consists of exactly the elements read; '
        'the cursor advances by exactly what the value occupies before the elements\' own data; what is written is the header with the real length plus exactly the content.')
EXPLANATION = 'Induction, trip count and accumulation are read off loop-carried values of the abstract evaluation; T stands for any element type.'
PR = 'ringhopper_primitives::primitive::'
A = lambda n: mk('arg', n)
SIZES = ('size', 'simple_size')
OPQ = lambda c: is_io(c) or c.method in SIZES or c.method in ('get_data_at_address', 'get_engine', 'get_tag_by_id')
DATA = ('Data', 'FileData', 'BSPVertexData', 'UTF16String')


def calls(ev, pred):
    return [e for e in ev.events.values() if e.kind == 'call' and pred(e)]


def io(ev, ty=None):
    return calls(ev, lambda e: is_io(e.callee) and (ty is None or re.fullmatch(ty, short(e.callee.args[0]))))


def oks(ev, v):
    for x, fs in alts(v):
        if x.op == 'adt' and x.a[1] == 'Ok':
            yield x.a[2][0][1], fs


def tsize(ev, ty):
    s = calls(ev, lambda e: e.callee.method in SIZES and e.callee.args and short(e.callee.args[0]) == ty)
    return s[0].val if s else None


def getfn(P, R, name, meth, trait=TAGDATA, key=None):
    f = P.fns.get('<%s as %s>::%s' % (name, trait, meth)) or P.fns.get('%s::%s' % (name, meth))
    if f is None:
        R.viol('missing:%s:%s' % (key or short(name), meth), 'no %s found for %s' % (meth, key or short(name)))
        return None
    R.fn(f)
    R.ob('container codecs')
    return f


def header(P, R, ev, f, k, ty, write, map_):
    h = io(ev, ty)
    if len(h) != 1:
        R.viol('header:' + k, 'the header of %s is accessed %d times' % (k, len(h)), where(f))
        return None
    h = h[0]
    pos = h.args[2] if write else h.args[1]
    R.check(pos is A('address' if map_ else 'at'), 'headerpos:' + k, 'the header of %s is not at the place of the value' % k, where(f, h.line))
    if map_:
        R.check(h.args[0] is A('map') and h.args[2] is A('domain_type'), 'headerdom:' + k, 'the header of %s is not read from the map and domain of its structure' % k, where(f, h.line))
    else:
        R.check(h.args[1 if write else 0] is A('data') and h.args[3 if write else 2] is A('struct_end'), 'headerbuf:' + k, 'the header of %s is not accessed in the buffer of its structure' % k, where(f, h.line))
    return h


def required(R, ev, st, f, k, e, fs, what):
    c = mk('isv', e.val, 'Ok')
    R.check((c, True) in fs or st.facts.get(c) is True, 'skippable:%s:%s' % (k, what), 'success can be reported for %s although its %s failed' % (k, what), where(f, e.line))


def at_start(p):
    """what the place behind argument p holds when the loop starts"""
    return [y for x in LPHI if x.a[2] is p and x.a[3] == () for y in entries(x)[0]]


def reflexive(P, R):
    name = PR + 'data::Reflexive<T>'
    HDR = r'ReflexiveC<T>'
    for meth in ('read_from_tag_file', 'write_to_tag_file', 'read_from_map'):
        k = 'Reflexive:' + meth
        f = getfn(P, R, name, meth)
        if f is None:
            continue
        wr, mp = meth[0] == 'w', meth.endswith('map')
        ev = StoreEv(P, opaque=OPQ)
        LPHI.clear()
        v, st = ev.run(f)
        h = header(P, R, ev, f, k, HDR, wr, mp)
        els = io(ev, 'T')
        if len(els) != 1 or h is None:
            R.viol('elements:' + k, 'elements of a reflexive are accessed by %d operations' % len(els), where(f))
            continue
        e = els[0]
        w = where(f, e.line)
        size = tsize(ev, 'T')
        hv = ev.project(h.val, 'Ok.0')
        items = mk('fld', mk('at', A('self')), 'items')
        n = ev.len(items) if wr else ev.project(hv, 'count')
        a = affine(e.args[2 if wr else 1])
        x = covers(ev, e.facts, n)
        R.check(size is not None and a is not None and a[1] is size, 'stride:' + k, 'elements of a reflexive are not spaced by their stored size: step %s' % (show(a[1], 5) if a else '?'), w)
        R.check(x is not None, 'trip:' + k, 'the elements of a reflexive are not visited from the first to the last (0 .. %s)' % show(n, 5), w)
        if a is None or size is None:
            continue
        if mp:
            R.check(e.args[0] is A('map') and e.args[2] is A('domain_type'), 'domain:' + k, 'elements are not read from the map and domain of the reflexive', w)
            want = ev.project(hv, 'address')
            R.check(a[0] is want or a[0] is ev.project(want, 'address'), 'start:' + k, 'elements are not read from the address of the reflexive but from %s' % show(a[0], 5), w)
        else:
            R.check(sub(e.args[3 if wr else 2], e.args[2 if wr else 1]) is size, 'end:' + k, 'the end given for an element is not its offset plus its size', w)
            R.check(e.args[1 if wr else 0] is A('data'), 'buffer:' + k, 'elements are not accessed in the buffer of the reflexive', w)
        if not wr and not mp:
            R.check(e.args[3] is A('extra_data_cursor'), 'cursor:' + k, 'elements do not share the data cursor', w)
            R.check(a[0].op == 'mut' and a[0].a[2] is A('extra_data_cursor'), 'start:' + k, 'elements are not read from the data cursor after the header but from %s' % show(a[0], 5), w)
            total = add(a[0], mul(n, size))
            init = at_start(e.args[3])
            R.check(init == [total], 'advance:' + k, 'the cursor is not moved past all elements before their own data is read: %s' % [show(i, 6) for i in init], w)
        if wr:
            src = e.cont[0]
            R.check(src.op == 'idx' and src.a[0] is items and src.a[1].op == 'ix' and x is not None and src.a[1].a[0] is x, 'source:' + k, 'what is written at step i is not element i: %s' % show(src, 5), w)
            init = at_start(e.args[1])
            R.check(len(init) == 1 and init[0].op == 'vecfrom' and ev.len(init[0]) is add(a[0], mul(n, size)), 'grow:' + k, 'the buffer is not grown by exactly the size of all elements before they are written', w)
            cnt = ev.project(h.cont[0], 'count')
            R.check(cnt is n or cnt is mk('cast', n, 'int', 'u32', 'usize') or (cnt.op == 'cast' and cnt.a[0] is n), 'count:' + k, 'the count written is %s, not the number of elements' % show(cnt, 5), where(f, h.line))
            R.check(any(t and c_.op == 'le0' and c_ is le(n, K(0xffffffff)) for c_, t in h.facts.items()), 'limit:' + k, 'a count above 2^32-1 is not refused', where(f, h.line))
        some_ = False
        for y, fs in oks(ev, v):
            some_ = True
            facts = dict(st.facts)
            facts.update({c: t for c, t in fs})
            required(R, ev, st, f, k, h, fs, 'header access')
            R.check(x is not None and exhausted(facts, x), 'break:' + k, 'a reflexive can be reported complete before all elements were processed', where(f))
            if not wr:
                el = accumulated(ev, ev.project(y, 'items'))
                R.check(el is ev.project(e.val, 'Ok.0'), 'collect:' + k, 'the reflexive does not consist of exactly the elements read, in order', where(f))
        R.check(some_, 'never:' + k, 'never succeeds', where(f))
        R.sample('%s: elements at %s + i*%s, i < %s' % (k, show(a[0], 4), show(size, 3), show(n, 4)))


def arrays(P, R):
    base = PR + 'array::<impl %s for [T; U]>' % SIMPLE
    for meth in ('read', 'write'):
        k = 'array:' + meth
        f = getfn(P, R, base, meth, key='[T; U]')
        if f is None:
            continue
        ev = StoreEv(P, opaque=OPQ)
        v, st = ev.run(f)
        els = io(ev, 'T')
        if len(els) != 1:
            R.viol('elements:' + k, 'elements of an array are accessed by %d operations' % len(els), where(f))
            continue
        e = els[0]
        w = where(f, e.line)
        wr = meth == 'write'
        a = affine(e.args[2 if wr else 1])
        size = tsize(ev, 'T')
        R.check(a is not None and a[0] is A('at') and a[1] is size and size is not None, 'stride:' + k, 'array elements are not stored back to back from the start of the array: %s' % ([show(z, 5) for z in a] if a else '?'), w)
        R.check(short(e.callee.args[-1]) == 'B' and e.args[1 if wr else 0] is A('data'), 'order:' + k, 'array elements are not accessed in the requested byte order and buffer', w)
        if wr:
            src = e.cont[0]
            n = ev.len(mk('at', A('self')))
            x = covers(ev, e.facts, n)
            R.check(x is not None and src.op == 'idx' and src.a[0] is mk('at', A('self')) and src.a[1] is mk('ix', x), 'source:' + k, 'what is written at step i is not element i: %s' % show(src, 5), w)
            for y, fs in oks(ev, v):
                facts = dict(st.facts)
                facts.update(dict(fs))
                R.check(x is not None and exhausted(facts, x), 'break:' + k, 'an array can be reported written before all elements were processed', where(f))
        else:
            ws = calls(ev, lambda c: c.callee.norm.endswith('MaybeUninit::write'))
            good = len(ws) == 1 and ws[0].args[1] is ev.project(e.val, 'Ok.0') and ws[0].args[0].op == 'ref' and ws[0].args[0].a[2] and ws[0].args[0].a[2][-1].op == 'ix'
            if good:
                ix = ws[0].args[0].a[2][-1].a[0]
                it = ev.iters.get(ix.a[1]) if ix.op == 'elemix' else None
                good = it is not None and source(it) is not None and source(it).op == 'it'
                for y, fs in oks(ev, v):
                    facts = dict(st.facts)
                    facts.update(dict(fs))
                    good = good and exhausted(facts, ix)
            elif not ws:
                good = any(True for _ in oks(ev, v))
            R.check(good, 'collect:' + k, 'the array does not consist of exactly the elements read, in order', w)
    f = P.fns.get(base + '::simple_size')
    if f is None:
        R.viol('missing:array:size', 'no stored size found for arrays')
    else:
        ev = Ev(P, opaque=OPQ)
        v, st = ev.run(f)
        s = tsize(ev, 'T')
        R.ob('container codecs')
        good = v is not None and s is not None and v.op == 'mul' and s in set(walk(v)) and any('U' in str(x.a) for x in walk(v) if x is not s and x is not v)
        R.check(good, 'size:array', 'the stored size of an array is not its length times the size of an element: %s' % (show(v, 5) if v is not None else None), where(f))


def datas(P, R):
    for t in DATA:
        name = PR + ('string::' if t == 'UTF16String' else 'data::') + t
        fld = 'data' if t == 'UTF16String' else 'bytes'
        k = t + ':read_from_tag_file'
        f = getfn(P, R, name, 'read_from_tag_file')
        if f is not None:
            ev = StoreEv(P, opaque=OPQ)
            v, st = ev.run(f)
            h = header(P, R, ev, f, k, 'DataC', False, False)
            if h is not None:
                n = ev.project(ev.project(h.val, 'Ok.0'), 'size')
                cur = None
                some_ = False
                for y, fs in oks(ev, v):
                    some_ = True
                    required(R, ev, st, f, k, h, fs, 'header access')
                    b = ev.project(y, fld)
                    good = b.op == 'slice' and b.a[0] is mk('at', A('data')) and b.a[1].op == 'mut' and b.a[1].a[2] is A('extra_data_cursor') and sub(b.a[2], b.a[1]) is n
                    R.check(good, 'content:' + k, 'the content is not the %s bytes at the data cursor but %s' % ('header\'s number of', show(b, 5)), where(f))
                    cur = b.a[2] if good else None
                R.check(some_, 'never:' + k, 'never succeeds', where(f))
                sts = [s for s in ev.stores if s[0] is A('extra_data_cursor')]
                R.check(cur is not None and len(sts) >= 1 and sts[-1][2] is cur, 'advance:' + k, 'the cursor is not moved past exactly the content', where(f))
                fits = any(c.op == 'le0' and tt and c is le(cur, ev.len(mk('at', A('data')))) for e in ev.events.values() if e.kind == 'index' for c, tt in e.facts.items()) if cur is not None else False
                R.check(fits, 'fits:' + k, 'the content is taken without checking that the file has that many bytes left', where(f))
        k = t + ':write_to_tag_file'
        f = getfn(P, R, name, 'write_to_tag_file')
        if f is not None:
            ev = StoreEv(P, opaque=OPQ)
            v, st = ev.run(f)
            h = header(P, R, ev, f, k, 'DataC', True, False)
            b = mk('fld', mk('at', A('self')), fld)
            ex = calls(ev, lambda e: e.callee.norm.endswith(('extend_from_slice', '::push', '::insert', '::resize', '::append', '::extend', '::truncate')))
            good = len(ex) == 1 and ex[0].callee.norm.endswith(('extend_from_slice', '::extend')) and ex[0].args[0] is A('data') and ex[0].cont[1] is b
            R.check(good, 'emit:' + k, 'what is appended to the file is not exactly the content: %s' % [show(e.cont[-1], 4) for e in ex], where(f))
            if h is not None:
                n = ev.project(h.cont[0], 'size')
                R.check(n is ev.len(b) or (n.op == 'cast' and n.a[0] is ev.len(b)), 'count:' + k, 'the size written is %s, not the number of bytes' % show(n, 5), where(f, h.line))
                R.check(any(tt and c is le(ev.len(b), K(0xffffffff)) for c, tt in h.facts.items()), 'limit:' + k, 'a size above 2^32-1 is not refused', where(f, h.line))
                for y, fs in oks(ev, v):
                    required(R, ev, st, f, k, h, fs, 'header access')
        if t == 'BSPVertexData':
            continue
        k = t + ':read_from_map'
        f = getfn(P, R, name, 'read_from_map')
        if f is not None:
            ev = StoreEv(P, opaque=OPQ)
            v, st = ev.run(f)
            h = header(P, R, ev, f, k, 'DataC', False, True)
            g = calls(ev, lambda e: e.callee.method == 'get_data_at_address')
            if h is None or not g:
                R.viol('fetch:' + k, 'the content is not fetched from the map', where(f))
                continue
            hv = ev.project(h.val, 'Ok.0')
            n = ev.project(hv, 'size')
            for e in g:
                w = where(f, e.line)
                R.check(e.args[0] is A('map') and e.args[3] is n, 'size:' + k, 'the content fetched is not the header\'s number of bytes of the same map', w)
                if t == 'FileData':
                    R.check(e.args[1] is ev.project(hv, 'file_offset'), 'address:' + k, 'file data is not fetched from its file offset but from %s' % show(e.args[1], 5), w)
                    fl = ev.project(hv, 'flags')
                    seen = set()
                    for y, fs in alts(e.args[2]):
                        c = ev.content(st, y)
                        m = c.a[1] if c.op == 'adt' else None
                        sub_ = [z.a[1] for z in walk(c) if z.op == 'adt' and z is not c]
                        facts = dict(e.facts)
                        facts.update(dict(fs))
                        bit = bit0(facts, fl)
                        seen.add((m, tuple(sub_), bit))
                    R.check(seen == {('ResourceMapFile', ('Sounds',), True), ('MapData', (), False)}, 'domain:' + k,
                            'external file data (flag bit 0) must come from the sound resource map and other file data from the map file itself; found %s' % sorted(map(str, seen)), w)
                else:
                    a = ev.project(hv, 'address')
                    R.check(e.args[1] is a or e.args[1] is ev.project(a, 'address'), 'address:' + k, 'data is not fetched from its address but from %s' % show(e.args[1], 5), w)
                    R.check(e.args[2] is A('domain_type'), 'domain:' + k, 'data is not fetched from the domain of its structure', w)
            for y, fs in oks(ev, v):
                b = ev.project(y, fld) if y.op == 'adt' else y
                facts = dict(st.facts)
                facts.update(dict(fs))
                full = any(b is x for e in g for x in (mk('at', ev.project(e.val, 'Some.0')), ev.content(st, ev.project(e.val, 'Some.0')), ev.project(e.val, 'Some.0')))
                empty = (b.op == 'arr' and not b.a[0]) or (b.op == 'call' and b.a[0].endswith('default'))
                R.check(full or (empty and facts.get(eq0(n)) is True), 'content:' + k, 'the content is not exactly what the map holds there (empty only for size 0): %s' % show(b, 5), where(f))
    f = P.fns.get(PR + 'data::BSPVertexData::read_from_map_with_offset')
    if f is None:
        R.viol('missing:vertices', 'no cache reader found for BSP vertices')
        return
    vertices(P, R, f)


def bit0(facts, fl):
    for c, t in facts.items():
        if c.op == 'eq0' and fl in set(walk(c)):
            bits = {x.a[1] for x in walk(c) if iskint(x) and x.a[1] != 0}
            if bits == {1}:
                return not t
    return None


def vertices(P, R, f):
    k = 'BSPVertexData:read_from_map_with_offset'
    R.fn(f)
    flag = mk('fld', mk('at', None), 'x') if False else None
    for comp in (False, True):
        for ext in (False, True):
            R.ob('container codecs')
            ev = VEv(P, opaque=lambda c: is_io(c) or c.method in ('get_data_at_address', 'default'))
            ev.eng = {'compressed_models': comp, 'external_bsps': ext}
            args = [A(f.lname(i + 1)) if f.lname(i + 1) != 'compressed' else K(comp) for i in range(f.argc)]
            v, st = ev.run(f, args=args)
            a, b = (32, 8) if comp else (56, 20)
            rs, ls = scale(A('rendered_count'), a), scale(A('lightmap_count'), b)
            h = io(ev, 'DataC')
            if len(h) != 1:
                R.viol('header:' + k, 'the header of BSP vertices is read %d times' % len(h), where(f))
                return
            addr = ev.project(ev.project(h[0].val, 'Ok.0'), 'address')
            got = {}
            for e in calls(ev, lambda e: e.callee.method == 'get_data_at_address'):
                got[(e.args[1], dom(e), e.args[3])] = e
            want = {(ev.project(addr, 'address'), 'domain_type', add(rs, ls))}
            if ext:
                want |= {(A('rendered_offset'), 'BSPVertices', rs), (A('lightmap_offset'), 'BSPVertices', ls)}
            R.check(set(got) == want, 'fetch:%s:%s:%s' % (k, comp, ext), 'vertices (%scompressed, %s bsps) are fetched from %s' %
                    ('' if comp else 'un', 'external' if ext else 'internal', sorted((show(x, 4), y, show(z, 4)) for x, y, z in got)), where(f))
            apps = calls(ev, lambda e: e.callee.norm.endswith('extend_from_slice'))
            order = [show(e.args[1], 4) for e in apps]
            keys = {ev.project(e.val, 'Some.0'): kk for kk, e in got.items()}
            seq = [keys.get(e.args[1]) for e in apps]
            wseq = [x for x in [(A('rendered_offset'), 'BSPVertices', rs), (A('lightmap_offset'), 'BSPVertices', ls), (ev.project(addr, 'address'), 'domain_type', add(rs, ls))] if x in want]
            R.check(sorted(map(repr, seq)) == sorted(map(repr, wseq)), 'append:' + k, 'the vertices returned are not the rendered vertices followed by the lightmap vertices: %s' % order, where(f))
            if ext and len(apps) == 3:
                ra = [e for e in apps if keys.get(e.args[1]) == wseq[0]]
                la = [e for e in apps if keys.get(e.args[1]) == wseq[1]]
                good = ra and la and la[0].cont[0].op == 'mut' and la[0].cont[0].a[1] == ra[0].bb
                R.check(good, 'order:' + k, 'lightmap vertices do not follow the rendered vertices', where(f))
    ev = VEv(P, opaque=lambda c: is_io(c) or c.method in ('get_data_at_address', 'default'))
    for comp in (False, True):
        ev.eng = {'compressed_models': not comp, 'external_bsps': False}
        v, st = ev.run(f, args=[A(f.lname(i + 1)) if f.lname(i + 1) != 'compressed' else K(comp) for i in range(f.argc)])
        R.check(not io(ev) and all(x.op == 'adt' and x.a[1] == 'Ok' for x, _ in alts(v)), 'other:' + k, 'vertices of the kind the engine does not use are not left empty', where(f))


def dom(e):
    if e.args[2] is A('domain_type'):
        return 'domain_type'
    c = e.cont[2]
    return c.a[1] if c.op == 'adt' else show(c, 3)


class VEv(StoreEv):
    def pre(self, fr, st, c, args, b, line):
        if c.method == 'get_engine':
            return mk('ref', False, mk('arg', 'engine'), ()), st
        return super().pre(fr, st, c, args, b, line)

    def project(self, v, e, st=None):
        if v is mk('arg', 'engine') or v is mk('at', mk('arg', 'engine')):
            x = getattr(self, 'eng', {}).get(e)
            if x is not None:
                return K(x)
        return super().project(v, e, st)


class PathEv(StoreEv):
    """what the text of a path has to be is judged elsewhere"""

    def pre(self, fr, st, c, args, b, line):
        if c.fn is not None and c.fn.p.endswith('TagPath::new'):
            return mk('call', c.norm, tuple(c.args), tuple(self.content(st, a) if a.op == 'ref' and a.a[1].op == 'loc' else a for a in args), None), st
        return super().pre(fr, st, c, args, b, line)


def references(P, R):
    name = PR + 'path::TagReference'
    f = getfn(P, R, name, 'read_from_tag_file')
    C = 'TagReferenceC'
    if f is not None:
        k = 'TagReference:read_from_tag_file'
        ev = PathEv(P, opaque=OPQ)
        v, st = ev.run(f)
        h = header(P, R, ev, f, k, C, False, False)
        if h is not None:
            hv = ev.project(h.val, 'Ok.0')
            n, g = ev.project(hv, 'path_length'), ev.project(hv, 'tag_group')
            kinds = set()
            for y, fs in oks(ev, v):
                facts = dict(st.facts)
                facts.update(dict(fs))
                required(R, ev, st, f, k, h, fs, 'header access')
                for z, fs2 in alts(y):
                    facts2 = dict(facts)
                    facts2.update(dict(fs2))
                    if z.op != 'adt':
                        R.viol('shape:' + k, 'unexpected reference %s' % show(z, 4), where(f))
                        continue
                    kinds.add(z.a[1])
                    if z.a[1] == 'Null':
                        R.check(z.a[2][0][1] is g, 'group:' + k, 'an unset reference does not keep its group', where(f))
                        R.check(facts2.get(eq0(n)) is True, 'null:' + k, 'a reference with a path can be read as unset', where(f))
                    else:
                        p = z.a[2][0][1]
                        made = [c for c in walk(p) if c.op == 'call' and c.a[0].endswith('TagPath::new')]
                        path, group = made[0].a[2] if len(made) == 1 else (ev.project(p, 'path'), ev.project(p, 'group'))
                        R.check(group is g, 'group:' + k, 'a reference does not get the group stored with it', where(f))
                        src = [s for s in walk(path) if s.op == 'slice' and s.a[0] is mk('at', A('data'))]
                        good = len(src) == 1 and src[0].a[1].op == 'mut' and src[0].a[1].a[2] is A('extra_data_cursor') and sub(src[0].a[2], src[0].a[1]) is n
                        R.check(good, 'content:' + k, 'the path of a reference is not the stored number of bytes at the data cursor', where(f))
                        if good:
                            end = src[0].a[2]
                            term = any(c.op == 'eq0' and t and mk('idx', mk('at', A('data')), mk('ix', end)) in set(walk(c)) for c, t in facts2.items())
                            R.check(term, 'terminator:' + k, 'a path that is not null terminated is accepted', where(f))
                            sts = [s for s in ev.stores if s[0] is A('extra_data_cursor')]
                            R.check(len(sts) >= 1 and all(s[2] is add(end, K(1)) for s in sts), 'advance:' + k, 'the cursor is not moved past the path and its terminator', where(f))
            R.check(kinds == {'Null', 'Set'}, 'kinds:' + k, 'references read are only %s' % sorted(kinds), where(f))
    f = getfn(P, R, name, 'write_to_tag_file')
    if f is not None:
        k = 'TagReference:write_to_tag_file'
        for var in ('Null', 'Set'):
            ev = StoreEv(P, opaque=OPQ)
            me = mk('at', A('self'))
            v, st = ev.run(f, facts=((mk('isv', me, 'Set'), var == 'Set'), (mk('isv', me, 'Null'), var == 'Null')))
            h = header(P, R, ev, f, k, C, True, False)
            if h is None:
                continue
            ex = calls(ev, lambda e: e.callee.norm.endswith(('extend_from_slice', '::push', '::insert', '::resize', '::append', '::extend', '::truncate')))
            hc = h.cont[0]
            if var == 'Null':
                R.check(not ex, 'emit:%s:null' % k, 'an unset reference emits data', where(f))
                hs = {h_ for h_, _ in alts(hc)}
                for y in hs:
                    R.check(ev.project(y, 'tag_group') is ev.project(me, 'Null.0'), 'wgroup:%s:null' % k, 'an unset reference is written with group %s' % show(ev.project(y, 'tag_group'), 4), where(f))
                    n = ev.project(y, 'path_length')
                    R.check(n is K(0) or 'default' in show(n, 4), 'wlen:%s:null' % k, 'an unset reference is written with a path length', where(f))
            else:
                p = ev.project(me, 'Set.0')
                path = ev.project(p, 'path')
                R.check(ev.project(hc, 'tag_group') is ev.project(p, 'group'), 'wgroup:%s:set' % k, 'a reference is written with group %s' % show(ev.project(hc, 'tag_group'), 4), where(f))
                n = ev.project(hc, 'path_length')
                L = ev.len(path)
                okn = n is L or (n.op == 'cast' and n.a[0] is L) or (n.op == 'cast' and n.a[0].op == 'len' and path in set(walk(n)))
                R.check(okn, 'wlen:%s:set' % k, 'the path length written is %s' % show(n, 5), where(f))
                good = len(ex) == 2 and all(e.args[0] is A('data') for e in ex)
                if good:
                    a, b = sorted(ex, key=lambda e: e.callee.norm.endswith('push'))
                    good = b.callee.norm.endswith('push') and b.args[1] is K(0) and path in set(walk(a.cont[1])) and a.cont[1].op in ('bytesof', 'fld', 'at')
                    good = good and not (b.cont[0] is mk('at', A('data')) or b.cont[0].op == 'mut' and b.cont[0].a[1] == h.bb)
                R.check(good, 'emit:%s:set' % k, 'a reference does not emit exactly its path followed by a terminator: %s' % [(e.callee.method, show(e.cont[-1], 4)) for e in ex], where(f))
    f = getfn(P, R, name, 'read_from_map')
    if f is not None:
        k = 'TagReference:read_from_map'
        ev = StoreEv(P, opaque=OPQ)
        v, st = ev.run(f)
        h = header(P, R, ev, f, k, C, False, True)
        g = calls(ev, lambda e: e.callee.method == 'get_tag_by_id')
        if h is not None:
            hv = ev.project(h.val, 'Ok.0')
            tid = ev.project(hv, 'tag_id')
            R.check(len(g) == 1 and g[0].args[1] is tid and g[0].args[0] is A('map'), 'lookup:' + k, 'the referenced tag is not looked up by the stored id in the same map', where(f))
            kinds = set()
            for y, fs in oks(ev, v):
                facts = dict(st.facts)
                facts.update(dict(fs))
                nul = facts.get(eq0(add(ev.project(tid, 'id'), K(-0xffffffff))))
                kinds.add(y.a[1])
                if y.a[1] == 'Null':
                    R.check(nul is True and y.a[2][0][1] is ev.project(hv, 'tag_group'), 'null:' + k, 'an unset reference (null id) is not read as unset with its group', where(f))
                else:
                    tg = ev.project(g[0].val, 'Some.0') if g else None
                    R.check(nul is False and tg is not None and y.a[2][0][1] in (mk('fld', mk('at', tg), 'tag_path'), ev.project(ev.content(st, tg), 'tag_path')), 'set:' + k, 'a set reference is not read as the path of the tag its id names', where(f))
            R.check(kinds == {'Null', 'Set'}, 'kinds:' + k, 'references read are only %s' % sorted(kinds), where(f))


def sizes(P, R):
    for name, n in ((PR + 'data::Reflexive<T>', 12), (PR + 'path::TagReference', 16)) + tuple((PR + ('string::' if t == 'UTF16String' else 'data::') + t, 20) for t in DATA):
        f = getfn(P, R, name, 'size')
        if f is not None:
            got = consteval(P, f)
            R.check(got == n, 'size:' + short(name), 'the stored size of %s is %s, the format has %d' % (short(name), got, n), where(f))


def check(P, R):
    reflexive(P, R)
    arrays(P, R)
    datas(P, R)
    references(P, R)
    sizes(P, R)
    R.floor('container codecs', 29)
