"""C09: a tag file is loaded only when its header, group, version, checksum and extent are right, and saved files satisfy the same gate."""
from ..layout import *
import re
from ..loops import *
from ..dyn import *
from ..val import *
from ..defs import camel
from ..report import where
from .c16 import pathv

RULE = ('Loading any tag succeeds only if the header constants are right, the group and version are those of the structure read, the checksum of everything after the header matches (unless relaxed or disabled) and no data is left over; '
        'nothing else is rejected. Saving writes a header that satisfies the same conditions. The checksum is the CRC-32 of the file format. A tag opened from a directory has the group of its path.')
EXPLANATION = 'The loader and the writer are evaluated for every group, the header fields, the checksum and the parse position being unknown; each condition is then assumed to be violated in turn and no successful outcome may remain.'
TH = 'ringhopper_primitives::tag::TagFileHeader'
PS = 'ringhopper_primitives::tag::ParseStrictness'
CRC = 'ringhopper_primitives::crc32::CRC32'
RES = 'core::result::Result'
BLAM, IGN = 0x626C616D, 0xFFFFFFFF


def term(c, k):
    return eq0(add(c, K(-k)))


def styp(c):
    """the type a trait method is called for"""
    if c.fn is not None and c.fn.selfty and not re.fullmatch(r'[A-Z]\w?', c.fn.selfty):
        return short(c.fn.selfty)
    return short(c.args[0]) if c.args else ''


class Gate(DynEv):
    hdr = None
    opened = None

    def pre(self, fr, st, c, args, b, line):
        n = c.fn.p if c.fn is not None else c.norm
        m = c.method
        if n.startswith(CRC + '::') or c.norm.startswith(CRC + '::'):
            self.event(fr, b, st, 'call', c, args, line)
            if m == 'crc':
                return mk('arg', 'sum'), st
            return self.opaque_call(fr, st, c, args, b, line)
        t = styp(c)
        if m in ('read_from_tag_file', 'read') and (t == 'TagFileHeader' or 'TagFileHeader' in ' '.join(c.args or ())):
            self.event(fr, b, st, 'call', c, args, line)
            return adt(RES, 'Ok', (('0', self.hdr),)), st
        if m == 'read_from_tag_file' and t in self.groups:
            self.event(fr, b, st, 'call', c, args, line)
            v, st = self.opaque_call(fr, st, c, args, b, line)
            if args[-1].op == 'ref':
                self.store(st, args[-1].a[1], args[-1].a[2], mk('arg', 'cursor'))
            return adt(RES, 'Ok', (('0', mk('tagof', t)),)), st
        if m == 'read_any_tag_from_file_buffer' and self.opened is not None:
            self.event(fr, b, st, 'call', c, args, line)
            return adt(RES, 'Ok', (('0', mk('box', self.opened)),)), st
        return super().pre(fr, st, c, args, b, line)


def header(group, **k):
    f = dict((n, mk('arg', n)) for n in ('id', 'string', 'crc32', 'header_size', 'padding', 'version', 'u16_255', 'blam_fourcc'))
    f.update(k)
    f['group'] = group
    return adt(TH, 'TagFileHeader', [(n, f[n]) for n in ('id', 'string', 'group', 'crc32', 'header_size', 'padding', 'version', 'u16_255', 'blam_fourcc')])


def outcomes(v, st):
    """(value, facts) of the ways a run can end"""
    if v is None:
        return []
    a = list(alts(v))
    base = list(st.facts.items())
    return [(y, dict(list(fs) + base)) for y, fs in a] if len(a) > 1 else [(v, dict(st.facts))]


def succ(v, st):
    return [(y, f) for y, f in outcomes(v, st) if not (y.op == 'adt' and y.a[0] == RES and y.a[1] == 'Err')]


def run_load(P, gs, f, strict, hdr, facts=()):
    from ..ev import State
    ev = Gate(P, gs)
    ev.hdr = hdr
    st = State({}, {})
    for c, t in facts:
        ev.addfact(st, c, t)
    v, st = ev.run(f, args=[mk('arg', 'file'), adt(PS, strict, ())], st=st)
    return ev, v, st


def versions(P, gs):
    out = {}
    for n, f in P.fns.items():
        if n.endswith('::version') and short(f.selfty or '') in gs:
            v, _ = Ev(P).run(f)
            out[short(f.selfty)] = v
    return out


def load(P, R, gs):
    f = P.one('read_any_tag_from_file_buffer')
    if f is None:
        R.viol('missing:load', 'the function that loads any tag file was not found')
        return
    R.fn(f)
    w = where(f)
    ver = versions(P, gs)
    FILE = mk('arg', 'file')
    for s, g in sorted(gs.items()):
        R.ob('groups loaded')
        G = adt(TG, g, ())
        V = ver.get(s)
        if V is None or not isk(V):
            R.viol('version:' + s, 'the version of %s is not a constant' % s, w)
            continue
        v_ = kval(V)
        good = dict(blam_fourcc=K(BLAM), u16_255=K(255), header_size=K(64), version=V)
        # nothing else rejected
        for strict, crc in (('Relaxed', mk('arg', 'crc32')), ('Strict', K(IGN)), ('Strict', mk('arg', 'sum'))):
            ev, v, st = run_load(P, gs, f, strict, header(G, crc32=crc, **good))
            oc = succ(v, st)
            R.check(len(oc) > 0, 'reject:' + s, 'a correct %s tag file is never loaded (%s)' % (s, strict), w)
            ok_ = []
            for y, fs in oc:
                t = [x for x in walk(y) if x.op == 'tagof']
                R.check(bool(t) and all(x.a[0] == s for x in t), 'type:' + s, 'a tag file of group %s is loaded as %s' % (g, [x.a[0] for x in t] or show(y, 4)), w)
            for y, fs in outcomes(v, st):
                if (y, fs) in oc:
                    continue
                R.check(any('cursor' in show(c, 6) and not t for c, t in fs.items()), 'overreject:' + s, 'a correct %s tag file can be rejected: %s' % (s, show(y, 5)), w)
            if strict == 'Relaxed':
                for y, fs in oc:
                    want = eq0(sub(mk('arg', 'cursor'), sub(mk('len', mk('at', FILE)), K(64))))
                    R.check(any(t and c is want for c, t in fs.items()), 'leftover:' + s, 'a %s tag file with leftover data is loaded' % s, w)
            if strict == 'Strict' and crc.op == 'arg':
                rd = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method == 'read_from_tag_file' and styp(e.callee) == s]
                body = mk('slice', mk('at', FILE), K(64), mk('len', mk('at', FILE)))
                for e in rd:
                    R.check(e.cont[0] is body and e.args[1] is K(0), 'body:' + s, 'the body of a %s tag is not read from right after the header' % s, '%s:%s' % (e.file, e.line))
                    R.check(e.args[2] is e.cont[3] and iskint(e.args[2]), 'extent:' + s, 'the variable part of a %s tag is not read from right after its fixed part' % s, '%s:%s' % (e.file, e.line))
                hd = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method in ('read_from_tag_file', 'read') and e not in rd]
                R.check(bool(hd) and all(e.args[0] is FILE and e.args[1] is K(0) for e in hd), 'head:' + s, 'the header of a tag file is not read from its start', w)
                up = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method in ('new', 'init', 'update') and e.callee.norm.startswith(CRC)]
                R.check(crc_run(up, body), 'crc:' + s, 'the checksum compared is not the checksum of everything after the header', w)
        # each condition violated
        for what, strict, h, fs in (
                ('signature', 'Relaxed', dict(good, blam_fourcc=mk('arg', 'blam_fourcc')), [(term(mk('arg', 'blam_fourcc'), BLAM), False)]),
                ('marker', 'Relaxed', dict(good, u16_255=mk('arg', 'u16_255')), [(term(mk('arg', 'u16_255'), 255), False)]),
                ('header size', 'Relaxed', dict(good, header_size=mk('arg', 'header_size')), [(term(mk('arg', 'header_size'), 64), False)]),
                ('version', 'Relaxed', dict(good, version=mk('arg', 'version')), [(term(mk('arg', 'version'), v_), False)]),
                ('checksum', 'Strict', good, [(term(mk('arg', 'crc32'), IGN), False), (eq0(sub(mk('arg', 'crc32'), mk('arg', 'sum'))), False)])):
            R.ob('violated conditions')
            ev, v, st = run_load(P, gs, f, strict, header(G, **h), fs)
            oc = succ(v, st)
            R.check(not oc, 'accept:%s:%s' % (what, s), 'a %s tag file with a wrong %s is loaded' % (s, what), w)
    known = set(gs.values())
    ng = 0
    for v in [x[0] for x in P.adts[TG]['variants']]:
        if v in known:
            continue
        ng += 1
        ev, v_, st = run_load(P, gs, f, 'Relaxed', header(adt(TG, v, ())))
        R.check(not succ(v_, st), 'nogroup:' + v, 'a tag file of group %s, which has no structure, is loaded' % v, w)


def crc_run(up, body):
    """every checksum is started at its initial value and fed exactly the body, once"""
    new = [e for e in up if e.callee.method == 'new']
    ini = [e for e in up if e.callee.method == 'init' and e.args[0] is K(IGN)]
    u = [e for e in up if e.callee.method == 'update']
    return len(new) + len(ini) == len(u) >= 1 and all(e_content(x, 1) is body for x in u)


def e_content(e, i):
    return e.cont[i]


def save(P, R, gs):
    f = P.one('TagFile::to_tag_file')
    if f is None:
        R.viol('missing:save', 'the function that makes tag files was not found')
        return
    R.fn(f)
    w = where(f)
    ver = versions(P, gs)
    ad = {short(n): n for n in P.adts}
    for s, g in sorted(gs.items()):
        R.ob('groups saved')
        T = next(n for n in P.adts if n.startswith('ringhopper_structs::') and short(n) == s)
        ev = Gate(P, gs, opaque=lambda c: c.method == 'write_to_tag_file' or 'size' == c.method and styp(c) != 'TagFileHeader')
        v, st = ev.run(f, args=[mk('arg', 'tag')], sub={'T': T})
        wr = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method == 'write_to_tag_file']
        body = [e for e in wr if e.args[0] is mk('arg', 'tag')]
        head = [e for e in wr if e not in body]
        if len(body) != 1 or len(head) != 1:
            R.viol('writes:' + s, 'saving a %s tag writes %d bodies and %d headers' % (s, len(body), len(head)), w)
            continue
        b, h = body[0], head[0]
        R.check(b.args[2] is K(64) and h.args[2] is K(0), 'place:' + s, 'the header or the body of a saved %s tag is at the wrong place' % s, w)
        H = h.cont[0]
        F = dict(H.a[2]) if H.op == 'adt' and H.a[0] == TH else {}
        want = dict(blam_fourcc=K(BLAM), u16_255=K(255), header_size=K(64), version=ver.get(s), group=adt(TG, g, ()), crc32=mk('arg', 'sum'))
        for k, x in want.items():
            R.check(F.get(k) is x, 'header:%s:%s' % (k, s), 'a saved %s tag file has a wrong %s in its header: %s' % (s, k, show(F[k], 4) if k in F else 'none'), w)
        up = [e for e in ev.events.values() if e.kind == 'call' and e.callee.norm.startswith(CRC) and e.callee.method in ('new', 'init', 'update')]
        u = [e for e in up if e.callee.method == 'update']
        c = u[0].cont[1] if u else None
        full = b.cont[1]
        # what is summed: everything after the header of the buffer the body was written to
        good = c is not None and c.op == 'slice' and c.a[1] is K(64) and c.a[2] is mk('len', c.a[0]) and c.a[0].op == 'mut' and (c.a[0] is h.cont[1])
        R.check(good and len(u) == 1 and crc_run(up, c), 'sum:' + s, 'the checksum of a saved %s tag does not cover exactly what follows the header' % s, w)
        for y, fs in succ(v, st):
            y0 = ev.project(y, 'Ok.0')
            R.check(y0.op == 'mut' and any(c.op == 'isv' and t and any(x is h.val for x in walk(c)) for c, t in fs.items()), 'after:' + s, 'what is returned as a saved %s tag is not the buffer the header was written to' % s, w)


def xors(v):
    if v.op == 'bin' and v.a[0] == 'BitXor':
        return xors(v.a[1]) + xors(v.a[2])
    return [v]


def low8(v):
    """operands of a xor of which only the low eight bits are taken"""
    if v.op == 'bin' and v.a[0] == 'BitAnd' and K(255) in (v.a[1], v.a[2]):
        return xors(v.a[2] if v.a[1] is K(255) else v.a[1])
    if v.op == 'bin' and v.a[0] == 'Rem' and v.a[2] is K(256):
        return xors(v.a[1])
    if v.op == 'cast':
        return low8(v.a[0]) if v.a[0].op in ('bin', 'cast') and low8(v.a[0]) else (xors(v.a[0]) if 'u8' in v.a[1:] else None)
    if v.op == 'bin' and v.a[0] == 'BitXor':
        a, b = low8(v.a[1]) or [v.a[1]], low8(v.a[2]) or [v.a[2]]
        return a + b
    return None


def strip(v):
    while v.op == 'cast':
        v = v.a[0]
    return v


def crcfn(P, R):
    tab = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ 0xEDB88320 if c & 1 else c >> 1
        tab.append(c)
    up = P.fns.get(CRC + '::update')
    new = P.fns.get(CRC + '::new')
    get = P.fns.get(CRC + '::crc')
    ini = P.fns.get(CRC + '::init')
    if not (up and new and get):
        R.viol('missing:crc', 'the checksum functions were not found')
        return
    for x in (up, new, get):
        R.fn(x)
    R.ob('checksum functions', 3)
    v, _ = Ev(P).run(new)
    inner = [n for n, x in v.a[2]] if v.op == 'adt' else []
    R.check(len(inner) == 1 and v.a[2][0][1] is K(IGN), 'crc:new', 'a checksum does not start from all ones', where(new))
    ev = Ev(P)
    v, _ = ev.run(get)
    R.check(inner and v is ev.project(mk('arg', get.lname(1) or 'self'), inner[0]), 'crc:get', 'the checksum given is not the one computed: %s' % show(v, 4), where(get))
    if ini:
        v, _ = Ev(P).run(ini)
        R.check(v.op == 'adt' and v.a[2][0][1] is mk('arg', ini.lname(1)), 'crc:init', 'a preset checksum is changed', where(ini))
    from ..ev import LPHI, State
    LPHI.clear()
    ev = Ev(P)
    st = State({}, {})
    root = mk('loc', 'crc', 'crc')
    ev.store(st, root, (), adt(CRC, 'CRC32', ((inner[0], mk('arg', 'crc')),)))
    data = mk('arg', 'data')
    v, st = ev.run(up, args=[mk('ref', True, root, ()), data], st=st)
    out = ev.project(ev.content(st, mk('ref', True, root, ())), inner[0])
    good = out.op == 'lphi' and out in LPHI
    if good:
        init, back = entries(out)
        good = init == [mk('arg', 'crc')] or list(init) == [mk('arg', 'crc')]
        good = good and len(back) >= 1
        for x in back:
            ops = xors(x)
            t = [o for o in ops if o.op == 'idx']
            sh = [o for o in ops if o.op == 'bin' and o.a[0] == 'Shr']
            ok_ = len(ops) == 2 and len(t) == 1 and len(sh) == 1 and sh[0].a[1] is out and sh[0].a[2] is K(8)
            if ok_:
                T = t[0].a[0]
                while T.op in ('cst', 'at'):
                    T = T.a[0]
                ok_ = T.op == 'arr' and [kval(y) if isk(y) else None for y in T.a[0]] == tab
                R.check(ok_, 'crc:table', 'the checksum table is not that of CRC-32', where(up))
                ix = strip(t[0].a[1].a[0] if t[0].a[1].op == 'ix' else t[0].a[1])
                o = [strip(y) for y in (low8(ix) or [])]
                el = [y for y in o if y is not out]
                ok_ = ok_ and len(o) == 2 and out in o and len(el) == 1 and el[0].op == 'idx' and el[0].a[0] is mk('at', data)
                if ok_:
                    e = next((y for y in walk(el[0]) if y.op in ('elem', 'elemix', 'lphi')), None)
                    src = source(ev.iters.get(e.a[1])) if e is not None and e.op != 'lphi' else None
                    ok_ = e is not None and (e.op == 'elemix' and src is not None and any(y is data for y in walk(src)) or e.op == 'elem' and src is not None and src.op == 'adt' and dict(src.a[2]).get('start') is K(0) and dict(src.a[2]).get('end') is mk('len', mk('at', data)) or e.op == 'lphi' and affine(e) == (K(0), K(1)))
                    ok_ = ok_ and exhausted(st.facts, e)
            good = good and ok_
    R.check(good, 'crc:step', 'the checksum is not computed byte by byte over all the data: %s' % show(out, 5), where(up))


def directory(P, R, gs):
    f = next((x for n, x in P.fns.items() if 'VirtualTagsDirectory as' in n and n.endswith('::open_tag_copy')), None)
    if f is None:
        R.viol('missing:directory', 'opening a tag from a directory was not found')
        return
    R.fn(f)
    w = where(f)
    from ..ev import State
    names = sorted(gs)
    for i, s in enumerate(names):
        for other in (s, names[(i + 1) % len(names)]):
            R.ob('tags opened by path')
            ev = Gate(P, gs, opaque=lambda c: c.method in ('path_for_tag', 'read_any_tag_from_file_buffer', 'crc64', 'metadata_mut', 'exists', 'join', 'to_native_path'))
            ev.opened = mk('dynobj', s)
            v, st = ev.run(f, args=[mk('arg', 'self'), pathv(adt(TG, gs[other], ()))])
            oc = succ(v, st)
            if s == other:
                R.check(bool(oc), 'open:' + s, 'a %s tag can never be opened from a directory' % s, w)
                for e in ev.events.values():
                    if e.kind == 'call' and e.callee.method == 'read_any_tag_from_file_buffer':
                        rd = [x for x in walk(e.cont[0]) if x.op == 'call' and x.a[0].endswith('fs::read')] + [x for x in walk(e.args[0]) if x.op == 'call' and x.a[0].endswith('fs::read')]
                        R.check(bool(rd) and any(x.op == 'call' and x.a[0].endswith('path_for_tag') for y in rd for x in walk(y)), 'open:file:' + s, 'the file loaded is not the one the path stands for', w)
                        R.check(e.args[1] is ev.project(mk('at', mk('arg', 'self')), 'strictness'), 'open:strict:' + s, 'a tag is opened with another strictness than asked for', w)
            else:
                R.check(not oc, 'open:group:' + s, 'a file holding a %s tag is opened for a path of another group' % s, w)


def check(P, R):
    D = Defs()
    gs = {D.groups[g]['struct']: camel(g) for g in D.groups}
    load(P, R, gs)
    save(P, R, gs)
    crcfn(P, R)
    directory(P, R, gs)
    R.floor('groups loaded', 80)
    R.floor('groups saved', 80)
    R.floor('violated conditions', 400)
    R.floor('tags opened by path', 160)
