"""C11: lookups in an open cache file give the data and tags the file has there, and nothing else."""
from ..arith import Arith
from ..layout import alts
from ..report import where
from ..truth import *
from ..val import *
from .c10 import dead, call_term, strip, fields, last, head

RULE = ('Each lookup is evaluated once for every domain with the rest of the map unknown. The result must be the specified part of the specified data at the specified base exactly if it is there, '
        'and what is looked up by address, ID, path or index must be that address, ID, path or index.')
EXPLANATION = 'Abstract evaluation of the lookups of both kinds of map and of resource maps; every outcome is compared with the specified term, and outcomes under contrary assumptions must not exist.'
PR = 'ringhopper_primitives::map::'
MAPS = {'gearbox': 'ringhopper::map::gearbox::GearboxCacheFile', 'xbox': 'ringhopper::map::xbox::XboxCacheFile'}


def words(v, f):
    """a value as text: what it is a field, element or part of, without the ways of borrowing, copying or widening it"""
    names = {f.lname(i): '#%d' % i for i in range(1, f.argc + 1)}

    def w(v):
        if v.op == 'arg':
            return names.get(v.a[0], str(v.a[0]))
        if v.op == 'fld':
            return w(v.a[0]) + p(v.a[1])
        if v.op in ('at', 'cast'):
            return w(v.a[0])
        if v.op == 'ref':
            return w(v.a[1]) + ''.join(p(x) for x in v.a[2])
        if v.op == 'idx':
            i = v.a[1]
            return '%s[%s]' % (w(v.a[0]), w(i.a[0] if i.op == 'ix' else i))
        if v.op == 'call':
            return '%s(%s)' % (v.a[0].rsplit('::', 1)[-1], ', '.join(w(x) for x in v.a[2]))
        if v.op == 'slice':
            return '%s[%s..%s]' % tuple(w(x) for x in v.a[:3])
        if v.op == 'len':
            return 'len(%s)' % w(v.a[0])
        if v.op == 'adt':
            n = v.a[1] or v.a[0].rsplit('::', 1)[-1]
            return n + ('{%s}' % ', '.join(w(x) for _, x in v.a[2]) if v.a[2] else '')
        if v.op == 'lin':
            k, d = lin_parts(v)
            return ' + '.join(sorted(('%s' if c == 1 else '%d*%%s' % c) % w(x) for x, c in d.items())) + (' + %d' % k if k else '')
        return show(v, 5)

    def p(x):
        if isinstance(x, V):
            if x.op == 'ix':
                return '[%s]' % w(x.a[0])
            if x.op == 'slc':
                return '[%s..%s]' % (w(x.a[0]), w(x.a[1]))
            return '?' + show(x, 4)
        return '' if x in ('Some.0', 'Ok.0') else '.' + str(x)
    return w(v)


def variant(v, names, n):
    return {mk('isv', v, x): x == n for x in names}


RES = {'Bitmaps': 'bitmaps', 'Sounds': 'sounds', 'Loc': 'loc'}


class Dom(CallEv):
    apart = ('get_by_path',)


def domains(P, R):
    names = [v[0] for v in P.adts[PR + 'DomainType']['variants']]
    kinds = [v[0] for v in P.adts[PR + 'ResourceMapType']['variants']]
    R.check(set(kinds) == set(RES), 'kinds', 'kinds of resource maps are %s' % sorted(kinds))
    for tag, t in MAPS.items():
        f = P.one('<%s as %sMap>::get_domain' % (t, PR))
        if f is None:
            R.viol('missing:%s' % tag, 'the domain lookup of %s maps was not found' % tag)
            continue
        R.fn(f)
        w = where(f)
        D = mk('at', mk('arg', f.lname(2)))
        ev = Dom(P)
        ev.run(f)
        pos = lambda c: c.a[0] if c.op == 'not' else c
        m = [pos(c) for c in ev.met]
        merged = {c: False for c in m if c.op == 'isv' and has(c, 'merged_sound_resources')}
        merged = {c: c.a[1] == 'None' for c in merged}
        if tag == 'gearbox':
            R.check(bool(merged), 'merged', 'patched up sounds are not looked for', w)
            v, st = (e2 := Dom(P, {c: not t for c, t in merged.items()})).run(f)
            for y, fs in outcomes(v, st):
                got = pair(e2, y, f)
                R.ob('domains looked up')
                R.check(got == ('get(#1.merged_sound_resources, #2)', '0'), 'merged:value', 'the data of a patched up sound is taken to be %s' % (got,), w)
        for n in names:
            subs = [None] if not n.startswith('ResourceMap') else kinds
            for k in subs:
                want, cond = expected(tag, n, k)
                base = {**merged, **variant(D, names, n)}
                if k:
                    base.update(variant(mk('fld', D, n + '.0'), kinds, k))
                what = n if k is None else '%s(%s)' % (n, k)
                yes, no = dict(base), []
                for c in m:
                    for q, t in cond:
                        if q(c):
                            yes[c] = t
                            no.append({**base, c: not t})
                e2 = Dom(P, yes)
                v, st = e2.run(f)
                outs = outcomes(v, st)
                R.ob('domains looked up')
                R.check(bool(outs), 'domain:%s:%s' % (tag, what), 'looking up %s in %s maps never ends' % (what, tag), w)
                for y, fs in outs:
                    got = pair(e2, y, f)
                    R.check(got == want, 'domain:%s:%s' % (tag, what), '%s of %s maps is taken to be %s' % (what, tag, 'nothing' if got is None else '%s at %s' % got), w)
                for a in no:
                    e2 = Dom(P, a)
                    v, st = e2.run(f)
                    R.ob('domains that are not there')
                    R.check(all(pair(e2, y, f) is None for y, fs in outcomes(v, st)), 'domain:%s:%s:absent' % (tag, what), '%s of %s maps is found where there is none' % (what, tag), w)


def pair(ev, y, f):
    if y.op == 'adt' and y.a[1] == 'None':
        return None
    y = ev.project(y, 'Some.0')
    return words(ev.project(y, '0'), f), words(ev.project(y, '1'), f)


def expected(tag, n, k):
    """(data, base) of a domain where it is there, and the conditions for that"""
    part = lambda r: '#1.data[%s.start..%s.end]' % (r, r)
    inb = lambda l: [(lambda c: c.op == 'le0' and has(c, l) and any(x.op == 'len' for x in atoms(c)), True)]
    g = tag == 'gearbox'
    if n == 'MapData':
        return ('#1.data', '0'), []
    if n == 'TagData':
        return (part('#1.tag_data'), '#1.base_memory_address'), []
    if n == 'BSP':
        return (part('#1.bsp_data[#2.BSP.0].range'), '#1.bsp_data[#2.BSP.0].base_address'), inb('bsp_data')
    if not g:
        return None, []
    if n == 'BSPVertices':
        return (part('#1.bsp_vertex_data[#2.BSPVertices.0]'), '0'), inb('bsp_vertex_data')
    ext = [(lambda c: has(c, 'external_models') and c.op in ('fld', 'at'), True)]
    if n == 'ModelVertexData':
        return (part('#1.vertex_data'), '0'), ext
    if n == 'ModelTriangleData':
        return (part('#1.triangle_data'), '0'), ext
    fl = RES.get(k)
    there = [(lambda c: c.op == 'isv' and c.a[1] == 'Some' and last(c.a[0]) == fl, True)]
    if n == 'ResourceMapFile':
        return ('#1.%s.data' % fl, '0'), there
    if n == 'ResourceMapEntry':
        return ('get_by_path(#1.%s, #2.ResourceMapEntry.1).data' % fl, '0'), there + [(lambda c: c.op == 'isv' and c.a[1] == 'Some' and c.a[0].op == 'call' and has(c, fl), True)]
    return None, []


# ------------------------------------------------------------------------------------------------ addresses
class At(CallEv):
    apart = ('get_domain', 'get_data_at_address', 'get_c_string_at_address')


def addresses(P, R):
    names = [v[0] for v in P.adts[PR + 'DomainType']['variants']]
    for fn, text in (('get_data_at_address', False), ('get_c_string_at_address', True)):
        f = P.one(PR + 'Map::' + fn)
        if f is None:
            R.viol('missing:' + fn, '%s was not found' % fn)
            continue
        over = [n for n in P.fns if n.endswith(' as %sMap>::%s' % (PR, fn))]
        R.check(not over, 'override:' + fn, '%s is not the same for all maps: %s' % (fn, over), where(f))
        R.fn(f)
        w = where(f)
        A, Dn = mk('arg', f.lname(2)), mk('arg', f.lname(3))
        isb = mk('isv', mk('at', Dn), 'BSP')
        ev = At(P)
        v, st = ev.run(f)
        gd = ev.calls('get_domain')
        if not R.check(len(gd) == 1 and gd[0].args[1] is Dn, fn + ':domain', 'the domain asked for is not looked up', w):
            continue
        dt = call_term(gd[0])
        data, base = mk('at', fields(dt, 'Some.0', '0')), fields(dt, 'Some.0', '1')
        n = mk('arg', f.lname(4)) if not text else None
        off = sub(A, base)
        end = add(off, n) if n is not None else mk('len', data)
        inside = le(end, mk('len', data)) if n is not None else le(off, mk('len', data))
        for bsp in (True, False):
            for y, fs in outcomes(*(e2 := At(P, {isb: bsp})).run(f)):
                R.ob('outcomes of lookups by address')
                if y.op == 'adt' and y.a[1] == 'None':
                    continue
                if y.op == 'call':
                    dm = e2.calls(fn)
                    ok = bsp and y.a[0].endswith(fn) and y.a[2][1] is A and (text or y.a[2][3] is n) and all(dom_of(e2, e, 2) == 'TagData' for e in dm) and dm
                    R.check(ok, fn + ':again', 'data is looked up as %s' % show(y, 4), w)
                    continue
                got = words(e2.project(y, 'Some.0'), f)
                x = '#1' # the map
                want = '%s[%s..%s]' % tuple(words(z, f) for z in (mk('fld', mk('fld', dt, 'Some.0'), '0'), off, end))
                if text:
                    want = 'to_str(from_bytes_until_nul(%s))' % want
                R.check(got == want, fn + ':value', 'what is at an address is taken to be %s' % got, w)
        # what must not fail: data that is there
        good = {mk('isv', dt, 'Some'): True, le(base, A): True, inside: True}
        if n is not None:
            good[le(add(off, n), K((1 << 64) - 1))] = True
            good[le(K(0), n)] = True
        if text:
            for c in ev.met:
                if c.op == 'isv' and c.a[1] == 'Ok' and has(c, 'from_bytes_until_nul'):
                    good[c] = True
        e2 = At(P, good)
        v, st = e2.run(f)
        R.ob('outcomes of lookups by address')
        R.check(all(y.op == 'adt' and y.a[1] == 'Some' for y, fs in outcomes(v, st)) and outcomes(v, st), fn + ':there', 'data that is there is not found', w)
        e2 = At(P, {**good, isb: True})
        v, st = e2.run(f)
        R.check(all(y.op == 'adt' and y.a[1] == 'Some' for y, fs in outcomes(v, st)), fn + ':again:when', 'data of a BSP is looked for elsewhere although it is there', w)
        # a BSP whose data is elsewhere is looked up in the tag data
        e2 = At(P, {**{c: t for c, t in good.items() if c is not inside}, inside: False, isb: True})
        v, st = e2.run(f)
        R.check(all(y.op == 'call' for y, fs in outcomes(v, st)) and outcomes(v, st), fn + ':fallback', 'data of a BSP that is in the tag data is not found', w)


def dom_of(ev, e, i):
    c = e.cont[i] if e.cont[i] is not None else e.args[i]
    return c.a[1] if c is not None and c.op == 'adt' else None


# ------------------------------------------------------------------------------------------------ tags
class Tg(CallEv):
    apart = ('index', 'get_tag_by_id', 'get_tag', 'extract_tag', 'get_all_tags', 'passes')

    def taken_apart(self, c):
        return c.method in self.apart and not c.norm.startswith('core::')


def tags(P, R):
    def run(f, assume=None):
        e2 = Tg(P, assume)
        v, st = e2.run(f)
        return e2, outcomes(v, st)

    def same(f, want, key, what, conds=(), none=True):
        """every outcome is the wanted one, or none where a condition fails; with all of them, only the wanted one"""
        w = where(f)
        R.fn(f)
        ev, outs = run(f)
        for y, fs in outs:
            R.ob('outcomes of lookups of tags')
            if y.op == 'adt' and y.a[1] == 'None':
                R.check(none, key, '%s gives nothing' % what, w)
                continue
            got = words(ev.project(y, 'Some.0') if y.op == 'adt' and y.a[1] == 'Some' else y, f)
            R.check(got == want, key, '%s gives %s' % (what, got), w)
        if none:
            m = [c.a[0] if c.op == 'not' else c for c in ev.met]
            yes = {c: c.a[1] != 'None' if c.op == 'isv' else True for c in m if c.op != 'k' and any(q(c) for q in conds)}
            e2, outs = run(f, yes)
            R.check(outs and all(not (y.op == 'adt' and y.a[1] == 'None') for y, fs in outs), key + ':there', '%s gives nothing although it is there' % what, w)
            R.check(yes, key + ':when', '%s depends on nothing' % what, w)

    for tag, t in MAPS.items():
        M = '<%s as %sMap>::' % (t, PR)
        fs = {n: P.one(M + n) for n in ('get_tag_by_id', 'get_tag', 'get_scenario_tag', 'get_all_tags', 'get_engine')}
        for n, f in fs.items():
            R.check(f is not None, 'missing:%s:%s' % (tag, n), '%s of %s maps was not found' % (n, tag))
        if not all(fs.values()):
            continue
        same(fs['get_tag_by_id'], '#1.tags[index(#2)]', tag + ':id', 'looking up a tag by ID', (lambda c: c.op == 'isv', lambda c: c.op == 'le0' and any(x.op == 'len' for x in atoms(c))))
        same(fs['get_tag'], 'get_tag_by_id(#1, get(#1.ids, #2))', tag + ':path', 'looking up a tag by path', (lambda c: c.op == 'isv',))
        same(fs['get_scenario_tag'], 'get_tag_by_id(#1, #1.scenario_tag)', tag + ':scenario', 'looking up the scenario tag', none=False)
        same(fs['get_engine'], '#1.engine', tag + ':engine', 'the engine of a map', none=False)
        over = [n for n in P.fns if n.startswith(M) and n.rsplit('::', 1)[-1] in ('get_tag_by_index', 'get_tag_by_tag_reference')]
        R.check(not over, tag + ':override', 'lookups are not the same for all maps: %s' % over)
    f = P.one(PR + 'Map::get_tag_by_tag_reference')
    if f is not None:
        same(f, 'get_tag(#1, #2.Set.0)', 'reference', 'looking up a tag by reference', (lambda c: c.op == 'isv' and c.a[1] != 'Null',))
    f = P.one(PR + 'Map::get_tag_by_index')
    if f is not None:
        w = where(f)
        R.fn(f)
        i = mk('arg', f.lname(2))
        ev, outs = run(f)
        ar = Arith(ev)
        for y, fs in outs:
            R.ob('outcomes of lookups of tags')
            if y.op == 'adt':
                R.check(ar.prove(fs, lt(K(65535), i)) or ar.prove(fs, le(K(65535), i)), 'index:none', 'looking up a tag by index gives nothing for an index there can be', w)
                continue
            ids = [z for x in walk(y) for z in [x] if x.op == 'adt' and x.a[0].endswith('::ID')]
            R.check(y.op == 'call' and y.a[0].endswith('get_tag_by_id') and any(x is i for z in ids for x in walk(z)), 'index', 'looking up a tag by index gives %s' % show(y, 5), w)


# ------------------------------------------------------------------------------------------------ resource maps
class Rm(CallEv):
    apart = ('from_resource_item', 'read')


def resources(P, R):
    T = 'ringhopper::map::resource::'
    f = P.one(T + 'ResourceMap::get')
    if R.check(f is not None, 'missing:get', 'the lookup of resources by index was not found'):
        R.fn(f)
        e2 = Rm(P)
        v, st = e2.run(f)
        i = mk('arg', f.lname(2))
        for y, fs in outcomes(v, st):
            R.ob('outcomes of lookups of resources')
            lens = [x for c in e2.met for x in walk(c) if x.op == 'len']
            if y.op == 'adt' and y.a[1] == 'None':
                R.check(lens and Arith(e2).prove(fs, le(lens[0], i)), 'get:none', 'a resource that is there is not found by its index', where(f))
            else:
                got = words(e2.project(y, 'Some.0'), f)
                R.check(got == 'from_resource_item(#1.resources[#2], #1)', 'get', 'looking up a resource by index gives %s' % got, where(f))
    f = P.one(T + 'ResourceMap::get_by_path')
    if R.check(f is not None, 'missing:path', 'the lookup of resources by path was not found'):
        R.fn(f)
        w = where(f)
        e2 = Rm(P)
        v, st = e2.run(f)
        path = mk('arg', f.lname(2))
        found = 0
        for y, fs in outcomes(v, st):
            R.ob('outcomes of lookups of resources')
            if y.op == 'adt' and y.a[1] == 'None':
                continue
            found += 1
            r = e2.project(y, 'Some.0')
            item = [x for x in walk(r) if x.op == 'ref' and any(isinstance(p, V) and p.op == 'ix' for p in x.a[2])]
            R.check(r.op == 'call' and r.a[0].endswith('from_resource_item') and len(item) == 1 and item[0].a[2][0] == 'resources', 'path', 'looking up a resource by path gives %s' % show(r, 5), w)
            eqs = [c for c, t in fs.items() if t and c.op == 'eq' and path in c.a and any(x.op == 'fld' and x.a[1] == 'path' and any(z is r for z in walk(x)) for x in c.a)]
            R.check(bool(eqs), 'path:same', 'a resource is found by a path other than its own', w)
        R.check(found > 0, 'path:never', 'a resource is never found by its path', w)
        n = 0
        for site, it, cs in walked(e2, f):
            n += 1
            e3 = Rm(P, {c: True for c in cs})
            e3.noend.add(site)
            v, st = e3.run(f)
            R.check(not partial(it) and not [1 for y, fs in outcomes(v, st) if not (y.op == 'adt' and y.a[1] == 'Some')], 'path:all', 'not every resource is looked at for its path', w)
        for site, it in e2.iters.items():
            if len(site) == 3 and site[0] == 0 and site[2] in ('find', 'find_map'):
                n += 1
                R.check(not partial(it), 'path:all', 'not every resource is looked at for its path', w)
        R.check(n == 1, 'path:walk', 'resources are not walked through', w)
    f = of(P, 'from_resource_item')
    if R.check(f is not None, 'missing:item', 'the function that makes resources was not found'):
        R.fn(f)
        e2 = CallEv(P)
        v, st = e2.run(f)
        for y, fs in outcomes(v, st):
            R.ob('outcomes of lookups of resources')
            for n, want in {'data': '#2.data[#1.data.start..#1.data.end]', 'path': '#2.data[#1.path.start..#1.path.end]', 'data_offset': '#1.data.start'}.items():
                got = words(e2.project(y, n), f)
                R.check(want in (got, got[len('from_utf8_unchecked('):-1] if got.startswith('from_utf8_unchecked(') else got), 'item:' + n, '%s of a resource is %s' % (n, got), where(f))
    for n, want in {'get_data': '#1.data', 'get_path': '#1.path', 'get_data_offset': '#1.data_offset'}.items():
        f = of(P, n)
        if R.check(f is not None, 'missing:' + n, '%s was not found' % n):
            e2 = CallEv(P)
            v, st = e2.run(f)
            for y, fs in outcomes(v, st):
                R.check(words(y, f) == want, n, '%s gives %s' % (n, words(y, f)), where(f))
    load(P, R, T)


def of(P, n):
    return next((f for p, f in P.fns.items() if p.startswith('ringhopper::map::resource::Resource::') and p.endswith('::' + n)), None)


def load(P, R, T):
    f = P.one(T + 'ResourceMap::from_data')
    if not R.check(f is not None, 'missing:load', 'the function that loads resource maps was not found'):
        return
    R.fn(f)
    w = where(f)
    ev = Rm(P)
    v, st = ev.run(f)
    data = mk('arg', f.lname(1))
    rd = {short(e.callee.args[0]) if not e.callee.fn else short(e.callee.fn.p.split(' as ')[0]): e for e in ev.calls('read')}
    hd, it = rd.get('ResourceMapHeader'), rd.get('ResourceMapResource')
    if not R.check(hd is not None and it is not None, 'load:reads', 'loading a resource map reads %s' % sorted(rd), w):
        return
    h, i = mk('fld', call_term(hd), 'Ok.0'), mk('fld', call_term(it), 'Ok.0')
    L = mk('len', data)
    R.check(hd.args[1] is K(0) and hd.args[2] is L, 'load:header', 'the header is read at %s' % show(hd.args[1], 4), w)
    from ..loops import entries
    at = it.args[1]
    if R.check(at.op == 'lphi', 'load:array', 'the entries of a resource map are read at %s' % show(at, 4), w):
        a, b = entries(at)
        R.check(all(strip(x) is mk('fld', h, 'array_offset') for x in a) and a, 'load:array:start', 'the entries of a resource map are read from %s' % [show(x, 4) for x in a], w)
        R.check(all(x is add(at, K(12)) for x in b) and b, 'load:array:step', 'the entries of a resource map are taken to be at %s' % [show(x, 4) for x in b], w)
    n = endless(P, R, Rm, f, w, 'load:ends', 'loading a resource map can end before all entries were read')
    R.check(n == 1, 'load:walks', 'the entries of a resource map are not walked through', w)
    for site, itr, cs in walked(ev, f):
        c = ev.itercount.get(site)
        R.check(c is not None and any(strip(x) is mk('fld', h, 'count') for x in walk(c)), 'load:count', 'the number of entries of a resource map is taken to be %s' % show(c, 4) if c is not None else 'the number of entries of a resource map is unknown', w)
    ps = ev.calls('push')
    if not R.check(len(ps) == 1, 'load:push', 'resources are not collected one per entry', w):
        return
    p = ps[0].args[1]
    R.ob('resources collected')
    d, q = ev.project(p, 'data'), ev.project(p, 'path')
    F = lambda n: mk('fld', i, n)
    R.check(strip(ev.project(d, 'start')) is F('data_offset') and ev.project(d, 'end') is add(F('data_offset'), F('data_size')), 'load:data', 'the data of a resource is taken to be at %s' % show(d, 5), w)
    a, b = ev.project(q, 'start'), ev.project(q, 'end')
    start = add(F('path_offset'), mk('fld', h, 'path_data_offset'))
    R.check(a is start, 'load:path', 'the path of a resource is taken to be at %s' % show(a, 5), w)
    z = sub(b, start)
    s = [x for x in walk(z) if x.op == 'call' and x.a[0].endswith('from_bytes_until_nul')]
    ok = z.op == 'len' and len(s) == 1 and words(s[0].a[2][0], f) == words(mk('slice', mk('slice', data, mk('fld', h, 'path_data_offset'), L), F('path_offset'), sub(L, mk('fld', h, 'path_data_offset'))), f)
    R.check(ok, 'load:path:end', 'the length of the path of a resource is taken to be %s' % show(z, 6), w)
    for what, c in {'whose header cannot be read': mk('isv', call_term(hd), 'Ok')}.items():
        dead(P, R, Rm, f, 'a resource map %s is loaded' % what, {c: False}, lambda e2, v, st: ends(v, st, 'Ok'), w, 'load:' + what)
    site = next((s for s, _, _ in walked(ev, f)), None)
    m = [c.a[0] if c.op == 'not' else c for c in ev.met]
    for what, cs in {'that cannot be read': [c for c in m if c.op == 'isv' and c.a[1] == 'Ok' and c.a[0].op == 'call' and c.a[0].a[0].endswith('::read') and c.a[0].a[2][1] is not K(0)],
                     'whose path does not end': [c for c in m if c.op == 'isv' and c.a[1] == 'Ok' and c.a[0].op == 'call' and c.a[0].a[0].endswith('from_bytes_until_nul')],
                     'whose path is not text': [c for c in m if c.op == 'isv' and c.a[1] == 'Ok' and c.a[0].op == 'call' and c.a[0].a[0].endswith('to_str')]}.items():
        if not R.check(bool(cs), 'load:entry:%s' % what, 'nothing depends on whether there is an entry %s' % what, w):
            continue
        e2 = Rm(P, {c: False for c in cs})
        e2.run(f)
        R.ob('conditions violated in turn')
        R.check(not e2.calls('push') and site not in e2.again, 'load:entry:%s' % what, 'an entry %s is passed over' % what, w)
    for y, fs in ends(v, st, 'Ok'):
        y = ev.project(y, 'Ok.0')
        R.check(ev.project(y, 'data') is data, 'load:kept', 'the data kept of a resource map is %s' % show(ev.project(y, 'data'), 4), w)
        R.check(ev.project(y, 'resources').op == 'lphi', 'load:kept:list', 'the resources kept are %s' % show(ev.project(y, 'resources'), 4), w)


def short(t):
    return t.rsplit('::', 1)[-1]


def check(P, R):
    domains(P, R)
    addresses(P, R)
    tags(P, R)
    resources(P, R)
    R.floor('domains looked up', 20)
    R.floor('outcomes of lookups by address', 8)
    R.floor('outcomes of lookups of tags', 12)
    R.floor('outcomes of lookups of resources', 4)
