"""C10: a cache file opens only if it is consistent, as the engine it names, with every tag where the file says."""
from ..arith import Arith, reaches
from ..dyn import TG
from ..layout import alts
from ..report import where
from ..truth import *
from ..val import *

RULE = ('The engine is one whose cache version is the header\'s and whose build (or an earlier build it stands for) is the header\'s, or else the default of that version if no exact build is enforced. '
        'The header, tag array, scenario, BSP data, external tags and checksum gate are each evaluated with every condition violated in turn: no violation may lead to success, and what is stored is what the file says at its place.')
EXPLANATION = 'Abstract evaluation of each step of opening a cache file, with the steps below it and the structure readers kept as terms; branches against an assumed condition are dead.'
U = 'ringhopper::map::util::'
DT = 'ringhopper_primitives::map::DomainType'


class Engines(CallEv):
    """the table of engines is an unknown list; the build string of the header an unknown string"""
    apart = ('as_str',)

    def value(self, fr, st, c, args, b, line):
        return mk('arg', 'build')

    def pre(self, fr, st, c, args, b, line):
        if c.method in ('into_iter', 'iter') and args and args[0].op != 'it' and any(x.op == 'adt' and x.a[0].endswith('::Engine') for x in walk(args[0])):
            args[0] = mk('ref', False, mk('arg', 'engines'), ())
        return super().pre(fr, st, c, args, b, line)


def is_engine(v):
    return any(x.op == 'arg' and x.a[0] == 'engines' for x in walk(v))


def one(R, met, what, w, pred):
    """conditions met that fit; at least one"""
    cs = [c for c in met if pred(c)]
    if not cs:
        R.viol('missing:' + what, 'nothing depends on whether %s' % what, w)
    return cs


def engine(P, R):
    f = P.one('header::ParsedCacheFileHeader::match_engine')
    if f is None:
        return R.viol('missing:match', 'the function that matches a header to an engine was not found')
    R.fn(f)
    w = where(f)
    ev = ev0 = Engines(P)
    ev.run(f)
    m = list(ev.met)
    pos = lambda cs: [c.a[0] if c.op == 'not' else c for c in cs]
    A = {
        'ver': pos(one(R, m, 'the cache version is that of the header', w, lambda c: pos([c])[0].op == 'eq0' and has(c, 'cache_file_version', 'cache_version'))),
        'hb': one(R, m, 'the engine has a build', w, lambda c: c.op == 'isv' and c.a[1] == 'Some' and c.a[0].op == 'fld' and c.a[0].a[1] == 'build' and is_engine(c)),
        'str': one(R, m, 'the build is that of the header', w, lambda c: c.op != 'not' and has(c, 'string') and has(c, 'build') and is_engine(c) and any(x is mk('arg', 'build') for x in walk(c)) and not has(c, 'fallback')),
        'fb': one(R, m, 'an earlier build is that of the header', w, lambda c: c.op != 'not' and has(c, 'fallback') and any(x is mk('arg', 'build') for x in walk(c)) and c.op not in ('le0',)),
        'enf': one(R, m, 'the build is enforced', w, lambda c: c.op == 'fld' and c.a[1] == 'enforced'),
        'def': one(R, m, 'the engine is the default of its version', w, lambda c: c.op == 'fld' and c.a[1] == 'cache_default'),
    }
    if not all(A.values()):
        return
    names = list(A)
    for n in range(1 << len(names)):
        t = {k: bool(n >> i & 1) for i, k in enumerate(names)}
        R.ob('combinations of engine conditions')
        ev = Engines(P, {c: t[k] for k in names for c in A[k]})
        LP = set()
        v, st = ev.run(f)
        now = best = False
        for y, fs in outcomes(v, st):
            if y.op == 'adt' and y.a[1] == 'Some' and is_engine(y):
                now = True
            for x in walk(y):
                if x.op == 'lphi' and x not in LP:
                    LP.add(x)
                    best = best or any(z.op == 'adt' and z.a[1] == 'Some' and is_engine(z) for b in entries_of(x) for z, _ in alts(b))
        exact = t['ver'] and t['hb'] and (t['str'] or t['fb'])
        # an earlier build is one of a list that may be empty: both outcomes remain then
        maybe = exact and not t['str']
        default = t['ver'] and not (exact and not maybe) and t['def'] and not (t['hb'] and t['enf'])
        say = ', '.join(k for k in names if t[k]) or 'nothing'
        R.check(now == exact, 'exact:%s' % say, 'an engine is %s at once where %s holds' % ('not taken' if exact else 'taken', say), w)
        R.check(maybe or best == default, 'default:%s' % say, 'an engine is %s by default where %s holds' % ('not taken' if default else 'taken', say), w)
    # nothing but the end of the table or an engine that fits ends the search
    for site, it, cs in walked(ev0, f):
        R.ob('walks that only end with their list')
        ev = Engines(P, {c: True for c in cs})
        ev.noend.add(site)
        v, st = ev.run(f)
        R.check(not partial(it) and all(y.op == 'adt' and y.a[1] == 'Some' and is_engine(y) for y, fs in outcomes(v, st)), 'engine:ends', 'the search for an engine can end before all were looked at', w)
    # the table
    tab = None
    for n, c in P.consts.items():
        if n.endswith('::ALL_SUPPORTED_ENGINES'):
            tab = c
    R.check(tab is not None, 'missing:engines', 'the table of engines was not found', w)


def entries_of(x):
    from ..loops import entries
    i, b = entries(x)
    return i + b


HEAD = {'CacheFileHeader': (0x68656164, 0x666F6F74), 'CacheFileHeaderPCDemo': (0x45686564, 0x47666F74)}


class Reads(CallEv):
    apart = ('read', 'read_from_map')

    def taken_apart(self, c):
        return c.method in self.apart and c.args and c.args[0].startswith('ringhopper_structs::')


def header(P, R):
    f = P.one('header::ParsedCacheFileHeader::read_from_map_data')
    if f is None:
        return R.viol('missing:header', 'the function that reads the header of a cache file was not found')
    R.fn(f)
    w = where(f)

    class H(Reads):
        def value(self, fr, st, c, args, b, line):
            # which layout is read stays visible in the term
            return mk('call', c.norm, (c.args[0],), tuple(args), None)
    ev = H(P)
    ev.run(f)
    cs = {c.args[0].rsplit('::', 1)[-1]: mk('call', c.norm, (c.args[0],), tuple(e.args), None) for e in ev.calls('read') for c in [e.callee]}
    R.check(set(cs) == set(HEAD), 'layouts', 'header layouts tried are %s' % sorted(cs), w)
    for e in ev.calls('read'):
        R.check(e.cont[0] is mk('slice', mk('at', mk('arg', 'map_data')), K(0), K(0x800)) and e.args[1] is K(0), 'header:at', 'the header is not read from the first 0x800 bytes', w)
    for n, call in sorted(cs.items()):
        ok = mk('isv', call, 'Ok')
        H0 = mk('fld', call, 'Ok.0')
        h, t = HEAD.get(n, (0, 0))
        hd, ft = term(H0, 'head_fourcc', h), term(H0, 'foot_fourcc', t)
        others = {mk('isv', c, 'Ok'): False for m, c in cs.items() if m != n}
        for k, (a, b_, c_) in {'all': (True, True, True), 'unreadable': (False, True, True), 'head': (True, False, True), 'foot': (True, True, False)}.items():
            R.ob('header conditions')
            e2 = H(P, {ok: a, hd: b_, ft: c_, **others})
            v, st = e2.run(f)
            s = ends(v, st, 'Ok')
            R.check(bool(s) == (k == 'all'), 'header:%s:%s' % (n, k), 'a header in layout %s is %s where its %s is wrong' % (n, 'accepted', k) if k != 'all' else 'a correct header in layout %s is refused' % n, w)
            if k == 'all':
                for y, fs in s:
                    p = ev.project(y, 'Ok.0')
                    for fld in ('name', 'build', 'cache_version', 'tag_data_offset', 'tag_data_size', 'decompressed_size', 'map_type', 'crc32', 'compression_padding'):
                        R.ob('header fields')
                        got = ev.project(p, fld)
                        want = K(0) if n.endswith('Demo') and fld == 'compression_padding' else mk('fld', H0, fld)
                        R.check(strip(got) is want, 'header:%s:%s' % (n, fld), '%s of a header in layout %s is %s' % (fld, n, show(got, 5)), w)


def term(v, fld, k):
    return eq0(add(mk('fld', v, fld), K(-k)))


def strip(v):
    while v.op == 'cast' and isinstance(v.a[1], str) and '>' in v.a[1]:
        v = v.a[0]
    return v


def details(P, R):
    f = P.one(U + 'get_tag_data_details')
    if f is None:
        return R.viol('missing:details', 'the function that finds the tag data of a cache file was not found')
    R.fn(f)
    w = where(f)

    class D(CallEv):
        apart = ('get_map_details', 'read_from_map_data', 'match_engine')
    ev = D(P)
    ar = Arith(ev)
    v, st = ev.run(f)
    s = ends(v, st, 'Ok')
    R.check(bool(s), 'details:never', 'the tag data of a cache file is never found', w)
    data = mk('arg', 'data')
    for y, fs in s:
        y = ev.project(y, 'Ok.0')
        h, rg = ev.project(y, '0'), ev.project(y, '2')
        a, b = ev.project(rg, 'start'), ev.project(rg, 'end')
        off, size = ev.project(h, 'tag_data_offset'), ev.project(h, 'tag_data_size')
        R.ob('ranges checked')
        R.check(any(x.op == 'call' and x.a[0].endswith(('get_map_details', 'read_from_map_data')) for x in walk(h)), 'details:header', 'the header is not that of the data', w)
        R.check(a is off and b is add(off, size), 'details:range', 'the tag data is taken to be at %s to %s' % (show(a, 5), show(b, 5)), w)
        R.check(ar.prove(fs, le(b, mk('len', mk('at', data)))) and ar.prove(fs, le(a, b)), 'details:bounds', 'tag data reaching past the end of the file is accepted', w)


# ------------------------------------------------------------------------------------------------ tags
def dead(P, R, cls, f, what, assume, gone, w, key, args=None):
    """under the assumption nothing satisfies gone(ev, v, st)"""
    R.ob('conditions violated in turn')
    ev = cls(P, assume)
    v, st = ev.run(f)
    R.check(not gone(ev, v, st), key, '%s' % what, w)
    return ev


def tags(P, R):
    f = P.one(U + 'get_all_tags')
    if f is None:
        return R.viol('missing:tags', 'the function that reads the tag array was not found')
    R.fn(f)
    w = where(f)

    class T(CallEv):
        apart = ('read_chunks_from_map_to_iterator', 'get_c_string_at_address', 'get_engine', 'is_err_and', 'read')

        def taken_apart(self, c):
            if c.method == 'read':
                return bool(c.args) and c.args[0].endswith('::CacheFileTag')
            if c.method == 'new':
                return c.norm.endswith('TagPath::new')
            return c.method in self.apart
    T.apart = T.apart + ('new',)
    ev = T(P)
    ar = Arith(ev)
    v, st = ev.run(f)
    n = endless(P, R, T, f, w, 'tags:ends', 'a walk through tags can end before all were looked at')
    R.check(n > 0, 'tags:walks', 'tags are not walked through', w)
    m = list(ev.met)
    ok = ends(v, st, 'Ok')
    R.check(len(ok) > 0, 'tags:never', 'the tag array is never read', w)
    for y, fs in ok:
        R.check(ar.prove(fs, le(mk('arg', 'tag_count'), K(65535))), 'tags:count', 'more tags than there are tag indices are accepted', w)
    good = lambda ev, v, st: ends(v, st, 'Ok')
    for e in ev.calls('read_chunks_from_map_to_iterator'):
        R.check(e.args[1] is mk('arg', 'tag_count') and e.args[2] is mk('arg', 'tag_address') and dom(ev, e, 3) == 'TagData', 'tags:array', 'the tag array is not read from its address: %s' % [show(a, 3) for a in e.args[1:]], w)
        dead(P, R, T, f, 'a tag array out of bounds is accepted', {mk('isv', mk('call', e.callee.norm, tuple(e.callee.args), tuple(e.args), None), 'Ok'): False}, good, w, 'tags:array:err')
    R.check(len(ev.calls('read_chunks_from_map_to_iterator')) == 1, 'tags:arrays', 'the tag array is not read exactly once', w)
    somes = lambda ev: [e for e in ev.calls('push') if e.args[1].op == 'adt' and e.args[1].a[1] == 'Some']
    nones = lambda ev: [e for e in ev.calls('push') if e.args[1].op == 'adt' and e.args[1].a[1] == 'None']
    ps, ns = somes(ev), nones(ev)
    R.check(len(ps) >= 1 and len(ns) >= 1, 'tags:push', 'tags are not collected one per entry', w)
    ents = {x for e in ps for x in walk(e.args[1]) if x.op == 'idx'}
    for e in ps:
        t = ev.project(e.args[1], 'Some.0')
        path = ev.project(t, 'tag_path')
        addr = strip(ev.project(t, 'address'))
        ent = next((x for x in walk(addr) if x.op == 'idx'), None)
        R.ob('tags collected')
        R.check(ent is not None and addr.op == 'fld' and has(addr, 'data', 'address') and not has(addr, 'path'), 'tags:address', 'the address of a tag is %s' % show(addr, 6), w)
        R.check(ev.project(t, 'domain').op == 'adt' and ev.project(t, 'domain').a[1] == 'TagData', 'tags:domain', 'the data of a tag is not looked for in the tag data', w)
        if ent is None:
            continue
        E = lambda *p: fields(ent, *p)
        strs = [x for x in walk(path) if x.op == 'call' and x.a[0].endswith('get_c_string_at_address')]
        want = path.op == 'fld' and path.a[0].op == 'call' and path.a[0].a[0].endswith('TagPath::new') and path.a[0].a[2][1] is E('tag_group') and len(strs) == 1 and strip(strs[0].a[2][1]) is E('path', 'address')
        R.check(want, 'tags:path', 'the path of a tag is %s' % show(path, 6), w)
        if not want:
            continue
        new = path.a[0]
        ins = ev.calls('insert')
        R.check(len(ins) == 1 and ins[0].args[1] is path and ins[0].args[2] is E('id'), 'tags:ids', 'a tag is not entered under its path with its own ID', w)
        unset = mk('isv', E('tag_group'), '_Unset')
        R.check(unset in m, 'tags:unset', 'nothing depends on whether an entry is unset', w)
        ix = [c for c in m if c.op == 'eq' and has(c, 'id') and has(c, 'Some')] or [c for c in m if c.op in ('eq', 'eq0') and any(x is E('id') for x in walk(c)) and any(x.op in ('elem', 'elemix', 'elemn') for x in walk(c))]
        idx_ok = [c for c in ix if any(x.op in ('elem', 'elemix', 'elemn', 'cast') for x in walk(c))]
        R.check(bool(idx_ok), 'tags:index', 'nothing depends on whether the ID of a tag is that of its place', w)
        for c in idx_ok:
            same = [x for x in walk(c) if x.op in ('elem', 'elemn')]
            R.check(all(counts(x) for x in same), 'tags:index:of', 'the ID of a tag is compared with something other than its place', w)
        gone = lambda ev, v, st: somes(ev)
        dead(P, R, T, f, 'a tag whose ID is not that of its place is accepted', {c: False for c in idx_ok}, gone, w, 'tags:index:wrong')
        dead(P, R, T, f, 'a tag whose path cannot be read is accepted', {mk('isv', strs[0], 'Some'): False}, gone, w, 'tags:path:unread')
        dead(P, R, T, f, 'a tag whose path is not valid is accepted', {mk('isv', new, 'Ok'): False}, gone, w, 'tags:path:bad')
        dead(P, R, T, f, 'an unset entry becomes a tag', {unset: True}, lambda ev, v, st: somes(ev) or ev.calls('insert'), w, 'tags:unset:set')
        dead(P, R, T, f, 'an entry that is set is left out', {unset: False}, lambda ev, v, st: nones(ev), w, 'tags:set:unset')
        dup = [mk('isv', x, 'Some') for x in {x for c in m for x in walk(c) if x.op == 'call' and x.a[0].endswith('HashMap::get') and x.a[2][1] is path or x.op == 'call' and x.a[0].endswith('HashMap::get') and path in walk(x)}]
        dup += [c for c in m if c.op == 'isv' and c.a[1] == 'Some' and c.a[0].op == 'call' and c.a[0].a[0].endswith('::insert') and path in walk(c.a[0])]
        dup += [c for c in m if c.op == 'call' and c.a[0].endswith('contains_key') and path in walk(c)]
        R.check(bool(dup), 'tags:dup', 'nothing depends on whether a tag of the same path was there before', w)
        dead(P, R, T, f, 'two tags of the same path are accepted', {c: True for c in dup}, gone, w, 'tags:dup:taken')
    # entries read wrongly
    rd = [mk('call', e.callee.norm, tuple(e.callee.args), tuple(e.args), None) for e in ev.calls('read')]
    entry_pushes = [e for e in ev.calls('push') if e not in ps and e not in ns]
    R.check(len(rd) == 1 and len(entry_pushes) == 1, 'tags:entries', 'entries of the tag array are not read one by one', w)
    for r in rd:
        dead(P, R, T, f, 'an entry of the tag array that cannot be read is passed over', {mk('isv', r, 'Ok'): False}, lambda e2, v, st: [e for e in e2.calls('push') if any(x.op == 'call' and x is r for x in walk(e.args[1]))] or loops_of(P, ev, entry_pushes[0]) & e2.again, w, 'tags:entry:bad')
        for e in entry_pushes:
            R.check(e.args[1] is mk('fld', r, 'Ok.0'), 'tags:entry', 'what is kept of an entry is %s' % show(e.args[1], 4), w)


def loops_of(P, ev, e):
    """headers of the loops around an event"""
    f = P.fns.get(e.fn)
    return {k for k in ev.again if k[0] == e.frame and f.dominates(k[1], e.bb) and reaches(f, e.bb, k[1])}


def fields(v, *p):
    for n in p:
        v = mk('fld', v, n)
    return v


def dom(ev, e, i):
    c = e.cont[i] if e.cont[i] is not None else e.args[i]
    return c.a[1] if c is not None and c.op == 'adt' else None


def call_term(e):
    return mk('call', e.callee.norm, tuple(e.callee.args), tuple(e.args), None)


class Scn(CallEv):
    apart = ('get_data_at_address', 'get_scenario_tag', 'read_from_map')


def scenario(P, R):
    f = P.one(U + 'load_scenario_info')
    if f is None:
        return R.viol('missing:scenario', 'the function that reads the scenario of a cache file was not found')
    R.fn(f)
    w = where(f)
    ev = Scn(P)
    v, st = ev.run(f)
    n = endless(P, R, Scn, f, w, 'scenario:ends', 'a walk through tags or BSPs can end before all were looked at')
    R.check(n > 0, 'scenario:walks', 'tags and BSPs are not walked through', w)
    m = list(ev.met)
    R.check(bool(ends(v, st, 'Ok')), 'scenario:never', 'the scenario is never read', w)
    good = lambda e2, v, st: ends(v, st, 'Ok')
    scn = next((call_term(e) for e in ev.calls('get_scenario_tag')), None)
    if scn is None:
        return R.viol('scenario:none', 'the scenario tag is not asked for', w)
    mine = lambda v: any(x is scn for x in walk(v))
    grp = [c for c in m if c.op == 'isv' and c.a[1] == 'Scenario' and mine(c)]
    R.check(bool(grp), 'scenario:group', 'nothing depends on the group of the scenario tag', w)
    dead(P, R, Scn, f, 'a scenario tag of another group is accepted', {c: False for c in grp}, good, w, 'scenario:group:other')
    # another scenario tag
    g2 = [c for c in m if c.op == 'isv' and c.a[1] == 'Scenario' and not mine(c)]
    same = [c for c in m if c.op == 'eq' and mine(c) and has(c, 'tag_path') and any(x.op == 'elemix' for x in walk(c))]
    allq = quants(m, lambda c: any(x.op == 'isv' and x.a[1] == 'Scenario' for x in walk(c)) and has(c, 'tag_path'))
    R.check(bool(g2) and bool(same) or bool(allq), 'scenario:other', 'other tags are not checked for being scenarios', w)
    if allq:
        dead(P, R, Scn, f, 'a second scenario tag is accepted', allq, good, w, 'scenario:second')
    some = [c for c in m if c.op == 'isv' and c.a[1] == 'Some' and any(x.op == 'elemix' for x in walk(c)) and any(c.a[0] in set(walk(g)) for g in g2)]
    viol = {**{c: True for c in g2}, **{c: False for c in same}, **{c: True for c in some}}
    if g2 and same and not allq:
        forall(P, R, Scn, f, ev, g2, viol, 'a second scenario tag is accepted', w, 'scenario:second')
    # the scenario itself
    rd = [e for e in ev.calls('read_from_map') if short(e.callee.args[0]) == 'Scenario']
    R.check(len(rd) == 1, 'scenario:reads', 'the scenario is not read once', w)
    for e in rd:
        R.check(e.args[1] is fields(mk('at', scn), 'address') and e.cont[2] is fields(mk('at', scn), 'domain'), 'scenario:at', 'the scenario is read at %s' % show(e.args[1], 4), w)
        dead(P, R, Scn, f, 'a scenario that cannot be read is accepted', {mk('isv', call_term(e), 'Ok'): False}, good, w, 'scenario:unread')
        for y, fs in ends(v, st, 'Ok'):
            y = ev.project(y, 'Ok.0')
            R.check(ev.project(y, '0') is mk('fld', call_term(e), 'Ok.0'), 'scenario:result', 'the scenario returned is not the one read', w)
    # BSPs
    ps = [e for e in ev.calls('push')]
    R.check(len(ps) == 1, 'bsp:push', 'BSPs are not collected one by one', w)
    for e in ps:
        d = e.args[1]
        ent = next((x for x in walk(ev.project(d, 'base_address')) if x.op == 'idx'), None)
        if ent is None:
            R.viol('bsp:base', 'the base address of a BSP is %s' % show(ev.project(d, 'base_address'), 4), w)
            continue
        R.ob('BSPs collected')
        R.check(any(x.op == 'fld' and x.a[1] == 'items' and has(x, 'structure_bsps') and any(y is call_term(rd[0]) for y in walk(x)) for x in walk(ent)) if rd else False, 'bsp:list', 'BSPs are not those of the scenario', w)
        ixs = runs(ent.a[1])
        R.check(bool(ixs) and all(counts(x) and to(x, lambda e: e.op == 'len' and has(e, 'structure_bsps')) for x in ixs), 'bsp:each', 'not every BSP of the scenario is collected', w)
        E = lambda *q: fields(ent, *q)
        a, n = E('bsp_start'), E('bsp_size')
        rg = ev.project(d, 'range')
        R.check(strip(ev.project(rg, 'start')) is a and ev.project(rg, 'end') is add(a, n), 'bsp:range', 'the data of a BSP is taken to be %s' % show(rg, 5), w)
        R.check(strip(ev.project(d, 'base_address')) is E('bsp_address'), 'bsp:base', 'the base address of a BSP is %s' % show(ev.project(d, 'base_address'), 5), w)
        path = ev.project(d, 'path')
        R.check(all(y.op == 'adt' and (y.a[1] == 'None' or any(x is E('structure_bsp') for x in walk(y))) for y, _ in alts(path)), 'bsp:path', 'the tag of a BSP is %s' % show(path, 5), w)
        dead(P, R, Scn, f, 'a BSP with a tag is entered without it', {mk('isv', E('structure_bsp'), 'Set'): True, mk('isv', E('structure_bsp'), 'Null'): False},
             lambda e2, v, st: [p for p in e2.calls('push') for y, _ in alts(ev.project(p.args[1], 'path')) if y.op == 'adt' and y.a[1] == 'None'], w, 'bsp:path:none')
        hs = [x for x in ev.calls('read_from_map') if short(x.callee.args[0]).startswith('ScenarioStructureBSPCompiledHeader')]
        ok_h = len(hs) == 1 and strip(hs[0].args[1]) is a and dom(ev, hs[0], 2) == 'MapData'
        R.check(ok_h, 'bsp:header', 'the header of a BSP is not read from the start of its data in the file', w)
        if ok_h:
            ht = call_term(hs[0])
            R.check(strip(ev.project(d, 'tag_address')) is fields(mk('fld', ht, 'Ok.0'), 'pointer', 'address'), 'bsp:address', 'the address of a BSP tag is %s' % show(ev.project(d, 'tag_address'), 6), w)
            dead(P, R, Scn, f, 'a BSP whose header cannot be read is accepted', {mk('isv', ht, 'Ok'): False}, lambda e2, v, st: e2.calls('push'), w, 'bsp:header:bad')
        rc = [x for x in ev.calls('get_data_at_address')]
        want = [x for x in rc if strip(x.args[1]) is a and strip(x.args[3]) is n and dom(ev, x, 2) == 'MapData']
        R.check(bool(want), 'bsp:bounds', 'the data of a BSP is not looked for in the file', w)
        for x in want:
            dead(P, R, Scn, f, 'a BSP whose data is out of bounds is accepted', {mk('isv', call_term(x), 'Some'): False}, lambda e2, v, st: e2.calls('push'), w, 'bsp:bounds:out')
        amb = [c for c in m if c.op == 'eq' and any(x is E('structure_bsp') for x in walk(c)) and has(c, 'path')]
        allq = quants(m, lambda c: has(c, 'structure_bsp', 'path') and any(x.op == 'eq' for x in walk(c)))
        R.check(bool(amb or allq), 'bsp:ambiguous', 'two BSPs of the same tag are not told apart', w)
        if allq:
            dead(P, R, Scn, f, 'two BSPs of the same tag are accepted', {**allq, mk('isv', E('structure_bsp'), 'Set'): True, mk('isv', E('structure_bsp'), 'Null'): False}, lambda e2, v, st: e2.calls('push'), w, 'bsp:ambiguous:taken')
        other = [c for c in m if c.op == 'isv' and c.a[1] == 'Some' and has(c, 'path') and any(x.op == 'elemix' for x in walk(c))]
        if amb and not allq:
            forall(P, R, Scn, f, ev, amb, {**{c: True for c in amb}, **{c: True for c in other}}, 'two BSPs of the same tag are accepted', w, 'bsp:ambiguous:taken')


def forall(P, R, cls, f, ev, conds, viol, what, w, key):
    """an element that satisfies viol ends the walk over the elements the conditions speak of"""
    R.ob('conditions violated in turn')
    e2 = cls(P, viol)
    e2.run(f)
    hd = {head(x) for c in conds for x in runs(c)}
    bad = [h for h in innermost(hd, ev) if h in e2.again]
    R.check(bool(hd) and not bad, key, what, w)


def to(x, pred):
    """a number from a range goes up to what it should"""
    return x.op != 'elem' or pred(dict(x.a[0].a[2]).get('end'))


def head(x):
    """the loop an element number belongs to"""
    return x.a[:2] if x.op == 'lphi' else x.a[1][:2]


def innermost(hd, ev):
    hs = [h for h in hd if len(h) == 2]
    if len(hs) < 2:
        return hs
    # elements of several lists: the last loop entered is the one walking the list
    return [max(hs, key=lambda h: (h[0], h[1]))]


def fixup(P, R):
    f = P.one(U + 'fixup_bsp_addresses')
    if f is None:
        return R.viol('missing:fixup', 'the function that places BSP tags was not found')
    R.fn(f)
    w = where(f)
    ev = CallEv(P)
    v, st = ev.run(f)
    n = endless(P, R, CallEv, f, w, 'fixup:ends', 'a walk through BSPs or tags can end before all were looked at')
    R.check(n > 0, 'fixup:walks', 'BSPs and tags are not walked through', w)
    m = list(ev.met)
    bsps = lambda v: any(x.op == 'arg' and x.a[0] == 'bsps' for x in walk(v))
    ss = {}
    for r, p, x, fn, l in ev.stores:
        if p and p[-1] in ('address', 'domain'):
            ss.setdefault(p[-1], []).append((r, p, x))
    R.check(set(ss) == {'address', 'domain'} and all(p[-1] in ('address', 'domain') for r, p, x, fn, l in ev.stores), 'fixup:stores', 'placing BSP tags changes %s' % sorted({str(p[-1]) for r, p, x, fn, l in ev.stores}), w)
    for k, l in ss.items():
        for r, p, x in l:
            R.ob('BSP tags placed')
            ids = [y for e in p for z in (e if isinstance(e, tuple) else (e,)) if isinstance(z, V) for y in walk(z)]
            key = [y for y in ids if y.op == 'fld' and y.a[1] == 'Some.0' and has(y, 'path') and bsps(y)]
            R.check(bool(key) and any(y.op == 'arg' and y.a[0] == 'ids' for y in ids), 'fixup:which', 'the tag placed is not the one the BSP names', w)
            be = next((y for z in key for y in walk(z) if y.op == 'idx' and bsps(y)), None)
            if be is None:
                continue
            if k == 'address':
                R.check(strip(x) is mk('fld', be, 'tag_address'), 'fixup:address', 'a BSP tag is placed at %s' % show(x, 5), w)
            else:
                ix = be.a[1]
                i = ix.a[0] if ix.op == 'ix' else ix
                el = runs(be)
                R.check(x.op == 'adt' and x.a[1] == 'BSP' and any(y is strip(ev.project(x, 'BSP.0')) or y is strip(ev.project(x, '0')) or y in set(walk(x)) for y in el), 'fixup:domain', 'the data of a BSP tag is looked for in %s' % show(x, 5), w)
                R.check(bool(el) and all(counts(y) and to(y, lambda e: e.op == 'len' and bsps(e)) for y in el), 'fixup:all', 'not every BSP is placed', w)
    left = [c for c in m if c.op == 'isv' and c.a[1] == 'ScenarioStructureBSP']
    inb = [c for c in m if c.op == 'isv' and c.a[1] == 'BSP']
    some = [c for c in m if c.op == 'isv' and c.a[1] == 'Some' and left and any(c.a[0] in set(walk(g)) for g in left)]
    allq = quants(m, lambda c: any(x.op == 'isv' and x.a[1] == 'ScenarioStructureBSP' for x in walk(c)))
    R.check(bool(left) and bool(inb) or bool(allq), 'fixup:left', 'BSP tags without data are not looked for', w)
    if allq:
        dead(P, R, CallEv, f, 'a BSP tag without data is accepted', allq, lambda e2, v, st: ends(v, st, 'Ok'), w, 'fixup:left:taken')
    if left and not allq:
        forall(P, R, CallEv, f, ev, left, {**{c: True for c in left}, **{c: False for c in inb}, **{c: True for c in some}}, 'a BSP tag without data is accepted', w, 'fixup:left:taken')


class Ext(CallEv):
    apart = ('get', 'get_path', 'get_by_path', 'patch_up_external_custom_edition_sound_tag')

    def taken_apart(self, c):
        if c.method in ('get', 'get_path', 'get_by_path'):
            return '::map::resource::' in c.norm
        return c.method in self.apart


def external(P, R):
    f = P.one('GearboxCacheFile::handle_external_tags')
    if f is None:
        return R.viol('missing:external', 'the function that finds external tags was not found')
    R.fn(f)
    w = where(f)
    ev = Ext(P)
    v, st = ev.run(f)
    n = endless(P, R, Ext, f, w, 'external:ends', 'a walk through tags can end before all were looked at')
    R.check(n > 0, 'external:walks', 'tags are not walked through', w)
    m = [c.a[0] if c.op == 'not' else c for c in ev.met]
    ext = [c for c in m if c.op == 'eq0' and last(c.a[0]) == 'external']
    al = [c for c in m if has(c, 'externally_indexed_tags') and c.op == 'fld']
    rm = [c for c in m if c.op == 'isv' and c.a[1] == 'Some' and last(c.a[0]) == 'resource_maps']
    bit = [c for c in m if c.op == 'isv' and c.a[1] == 'Bitmap' and has(c, 'tag_path', 'group')]
    snd = [c for c in m if c.op == 'isv' and c.a[1] == 'Sound' and has(c, 'tag_path', 'group')]
    if not R.check(bool(ext and al and rm and bit and snd), 'external:cond', 'external tags are not told apart by being external, what the engine allows and their group', w):
        return
    stored = lambda e2, v=None, st=None: [s for s in e2.stores if s[0].op == 'arg' and s[0].a[0] == 'tags'] + e2.calls('patch_up_external_custom_edition_sound_tag')
    A = lambda cs, t: {c: t for c in cs}
    R.check(all(any(x.op == 'arg' and x.a[0] == 'cached_tags' for x in walk(c)) and all(counts(x) and to(x, lambda e: e is mk('arg', 'tag_count') or e.op == 'len' and has(e, 'tags') or e.op == 'len' and has(e, 'cached_tags')) for x in runs(c) if has(x, 'external') is False) for c in ext), 'external:flag', 'whether a tag is external is not read from its own entry', w)
    dead(P, R, Ext, f, 'a tag that is not external is looked for elsewhere', A(ext, True), stored, w, 'external:internal')
    yes = {**A(ext, False), **A(al, True), **A(rm, True)}
    for t in ({**yes, **A(al, False)}, {**yes, **A(rm, False)}):
        dead(P, R, Ext, f, 'an external tag is accepted where the engine does not allow it', t, stored, w, 'external:allowed')
        forall(P, R, Ext, f, ev, ext, {**t, **some_tag(m)}, 'an external tag is passed over where the engine does not allow it', w, 'external:allowed:over')
    for g, res, field in (('Bitmap', 'Bitmaps', 'bitmaps'), ('Sound', None, None), ('other', 'Loc', 'loc')):
        base = {**yes, **A(bit, g == 'Bitmap'), **A(snd, g == 'Sound')}
        e2 = Ext(P, base)
        e2.run(f)
        ss = [s for s in e2.stores if s[0].op == 'arg' and s[0].a[0] == 'tags']
        pu = e2.calls('patch_up_external_custom_edition_sound_tag')
        R.ob('external groups')
        if res is None:
            R.check(not ss and len(pu) == 1, 'external:%s' % g, 'an external sound is not patched up', w)
            for e in pu:
                forall(P, R, Ext, f, ev, ext, {**base, **some_tag(m), mk('isv', call_term(e), 'Ok'): False}, 'an external sound that cannot be patched up is passed over', w, 'external:%s:bad' % g)
            continue
        R.check(not pu and {s[1][-1] for s in ss} == {'address', 'domain'}, 'external:%s' % g, 'of an external tag (%s), %s is changed' % (g, sorted({str(s[1][-1]) for s in ss})), w)
        for r, p, x, fn, l in ss:
            if p[-1] == 'address':
                R.check(x is K(0), 'external:%s:address' % g, 'an external tag (%s) is looked for at %s' % (g, show(x, 4)), w)
            elif p[-1] == 'domain':
                d = ev.project(x, 'ResourceMapEntry.0')
                q = ev.project(x, 'ResourceMapEntry.1')
                R.check(x.op == 'adt' and x.a[1] == 'ResourceMapEntry' and d.op == 'adt' and d.a[1] == res and has(q, 'tag_path', 'path'), 'external:%s:domain' % g, 'an external tag (%s) is looked for in %s' % (g, show(x, 5)), w)
        there = [c for c in m if c.op == 'isv' and c.a[1] == 'Some' and last(c.a[0]) == field]
        look = [c for c in (y.a[0] if y.op == 'not' else y for y in e2.met) if c.op == 'isv' and c.a[1] == 'Some' and c.a[0].op == 'call' and c.a[0].a[0].endswith('::get') and mentions(c.a[0].a[2][0], field) and last(c.a[0].a[2][1]) == 'address']
        eq = [c for c in (y.a[0] if y.op == 'not' else y for y in e2.met) if c.op == 'eq' and has(c, 'get_path', 'tag_path', 'path')]
        if R.check(bool(there and look and eq), 'external:%s:match' % g, 'an external tag (%s) is not matched with %s.map' % (g, field), w):
            for bad in (A(look, False), A(eq, False)):
                t = {**base, **A(there, True), **bad}
                dead(P, R, Ext, f, 'an external tag (%s) other than that of %s.map is accepted' % (g, field), t, stored, w, 'external:%s:other' % g)
                forall(P, R, Ext, f, ev, ext, {**t, **some_tag(m)}, 'an external tag (%s) other than that of %s.map is passed over' % (g, field), w, 'external:%s:over' % g)


def mentions(v, n):
    return has(v, n) or any(x.op == 'ref' and n in x.a[2] for x in walk(v))


def some_tag(m):
    return {c: True for c in m if c.op == 'isv' and c.a[1] == 'Some' and c.a[0].op == 'idx'}


def model_data(P, R):
    f = P.one('GearboxCacheFile::load_model_data')
    if f is None:
        return R.viol('missing:models', 'the function that finds model data was not found')
    R.fn(f)
    w = where(f)
    ev = Scn(P)
    v, st = ev.run(f)
    rd = ev.calls('read_from_map')
    if not R.check(len(rd) == 1 and short(rd[0].callee.args[0]) == 'CacheFileTagDataHeaderExternalModels' and last(rd[0].args[1]) == 'base_memory_address' and dom(ev, rd[0], 2) == 'TagData', 'models:header', 'the place of model data is not read from the start of the tag data', w):
        return
    h = mk('fld', call_term(rd[0]), 'Ok.0')
    dead(P, R, Scn, f, 'model data whose place cannot be read is accepted', {mk('isv', call_term(rd[0]), 'Ok'): False}, lambda e2, v, st: ends(v, st, 'Ok') or e2.stores, w, 'models:unread')
    o, n, t = (mk('fld', h, x) for x in ('model_data_file_offset', 'model_data_size', 'model_triangle_offset'))
    want = {'vertex_data': (o, add(o, t)), 'triangle_data': (add(o, t), add(o, n))}
    got = {}
    for r, p, x, fn, l in ev.stores:
        got[p[-1]] = x
        R.ob('model data ranges')
        a, b = want.get(p[-1], (None, None))
        s, e = strip(ev.project(x, 'start')), strip(ev.project(x, 'end'))
        R.check(s is a and e is b, 'models:%s' % str(p[-1]), '%s is taken to be at %s' % (p[-1], show(x, 5)), w)
    R.check(set(got) == set(want), 'models:stores', 'finding model data sets %s' % sorted(map(str, got)), w)
    ar = Arith(ev)
    oks = ends(v, st, 'Ok')
    R.check(bool(oks), 'models:never', 'model data is never found', w)
    for y, fs in oks:
        size = [x for c in ev.met for x in walk(c) if x.op == 'len' and has(x, 'data') and not has(x, 'bsp_data')]
        R.check(ar.prove(fs, le(t, n)), 'models:triangles', 'triangles before the end of vertices are accepted', w)
        R.check(bool(size) and ar.prove(fs, le(add(o, n), size[0])), 'models:bounds', 'model data past the end of the file is accepted', w)


def vertex_data(P, R):
    f = P.one('GearboxCacheFile::load_external_vertex_data')
    if f is None:
        return R.viol('missing:vertices', 'the function that finds BSP vertices was not found')
    R.fn(f)
    w = where(f)
    ev = Scn(P)
    v, st = ev.run(f)
    n = endless(P, R, Scn, f, w, 'vertex_data:ends', 'a walk through BSPs can end before all were looked at')
    R.check(n > 0, 'vertex_data:walks', 'BSPs are not walked through', w)
    rd = ev.calls('read_from_map')
    ps = ev.calls('push')
    if not R.check(len(rd) == 1 and len(ps) == 1 and short(rd[0].callee.args[0]) == 'ScenarioStructureBSPCompiledHeaderCEA' and last(rd[0].args[1]) == 'base_address' and dom(ev, rd[0], 2) == 'BSP', 'vertices:header', 'the place of BSP vertices is not read from the start of each BSP', w):
        return
    e, r = ps[0], rd[0]
    i = runs(r.args[1])
    b = ev.project(r.cont[2] or r.args[2], 'BSP.0')
    R.check(bool(i) and all(counts(x) and to(x, lambda e: e.op == 'len' and has(e, 'bsp_data')) for x in i) and any(x in i for x in walk(b)), 'vertices:each', 'the place of BSP vertices is read from %s' % show(b, 4), w)
    h = mk('fld', call_term(r), 'Ok.0')
    o, n = mk('fld', h, 'lightmap_vertices'), mk('fld', h, 'lightmap_vertex_size')
    s, t = strip(ev.project(e.args[1], 'start')), strip(ev.project(e.args[1], 'end'))
    R.ob('BSP vertex ranges')
    R.check(s is o and t is add(o, n), 'vertices:range', 'BSP vertices are taken to be at %s' % show(e.args[1], 5), w)
    size = [x for c in ev.met for x in walk(c) if x.op == 'len' and last(x.a[0].a[0] if x.a[0].op == 'at' else x.a[0]) == 'data']
    R.check(bool(size) and Arith(ev).prove(e.facts, le(add(o, n), size[0])), 'vertices:bounds', 'BSP vertices past the end of the file are accepted', w)
    hd = {head(x) for x in i}
    for what, c in (('cannot be read', {mk('isv', call_term(r), 'Ok'): False}),):
        e2 = Scn(P, c)
        e2.run(f)
        R.check(not e2.calls('push') and not (hd & e2.again), 'vertices:unread', 'a BSP whose place of vertices %s is passed over' % what, w)
    if size:
        e2 = Scn(P, {le(add(o, n), size[0]): False})
        e2.run(f)
        R.check(not e2.calls('push') and not (hd & e2.again), 'vertices:over', 'a BSP whose vertices are out of bounds is passed over', w)


# ------------------------------------------------------------------------------------------------ the whole
class New(CallEv):
    apart = ('get_tag_data_details', 'get_all_tags', 'load_scenario_info', 'fixup_bsp_addresses', 'from_data', 'handle_external_tags', 'load_model_data', 'load_external_vertex_data',
             'get_domain', 'get_tag_by_id', 'update', 'crc', 'read_from_map')

    def taken_apart(self, c):
        return c.norm.endswith('CRC32::new') if c.method == 'new' else c.method in self.apart


STEPS = {'get_tag_data_details': {}, 'get_all_tags': {}, 'load_scenario_info': {}, 'fixup_bsp_addresses': {}, 'read_from_map': {}, 'handle_external_tags': {},
         'load_model_data': {'external_models': True}, 'load_external_vertex_data': {'external_bsps': True}}
WHAT = {'get_tag_data_details': 'header', 'get_all_tags': 'tag array', 'load_scenario_info': 'scenario', 'fixup_bsp_addresses': 'BSP tags', 'read_from_map': 'tag data header', 'handle_external_tags': 'external tags',
        'load_model_data': 'model data', 'load_external_vertex_data': 'external BSP vertices', 'from_data': 'resource map'}


def opened(P, R, suffix, gear):
    f = P.one(suffix)
    tag = 'gearbox' if gear else 'xbox'
    if f is None:
        return R.viol('missing:' + suffix, '%s was not found' % suffix)
    R.fn(f)
    w = where(f)
    ev = New(P)
    v, st = ev.run(f)
    m = list(ev.met)
    good = lambda e2, v, st: ends(v, st, 'Ok')
    R.check(bool(ends(v, st, 'Ok')), 'new:%s:never' % tag, 'a cache file never opens', w)
    pos = lambda c: c.a[0] if c.op == 'not' else c
    flag = lambda n: {pos(c): True for c in m if pos(c).op in ('fld', 'at') and has(c, 'get_tag_data_details', n) and last(pos(c)) == n}
    for n, need in STEPS.items():
        if not gear and n in ('handle_external_tags', 'load_model_data', 'load_external_vertex_data'):
            continue
        es = ev.calls(n)
        R.check(len(es) == 1, 'new:%s:%s' % (tag, n), 'the %s of a cache file is not loaded once' % WHAT[n], w)
        for e in es:
            a = {mk('isv', call_term(e), 'Ok'): False}
            for k in need:
                fl = flag(k)
                R.check(bool(fl), 'new:%s:%s:%s' % (tag, n, k), 'nothing depends on %s' % k, w)
                a.update(fl)
                e2 = New(P, {c: False for c in fl})
                e2.run(f)
                R.check(not e2.calls(n), 'new:%s:%s:not' % (tag, n), '%s is looked for in a cache file of an engine without it' % WHAT[n], w)
            dead(P, R, New, f, 'a cache file whose %s cannot be read is opened' % WHAT[n], a, good, w, 'new:%s:%s:bad' % (tag, n))
    ob = lambda n: next(iter(ev.calls(n)), None)
    D, A, S, H = (ob(n) for n in ('get_tag_data_details', 'get_all_tags', 'load_scenario_info', 'read_from_map'))
    if not (D and A and S and H):
        return
    d, a, s, h = (mk('fld', call_term(e), 'Ok.0') for e in (D, A, S, H))
    data = mk('arg', 'data')
    R.check(D.cont[0] is data or any(x is data for x in walk(D.cont[0] or D.args[0])), 'new:%s:data' % tag, 'the header is not read from the data given', w)
    eng = fields(d, '1')
    base = strip(H.args[1])
    R.check(base.op == 'fld' and has(base, 'base_memory_address', 'address') and any(x is call_term(D) for x in walk(base)) and dom(ev, H, 2) == 'TagData', 'new:%s:first' % tag, 'the tag data header is read at %s' % show(base, 5), w)
    ta = lambda x, n: strip(x).op == 'fld' and last(strip(x)) == n and any(y is h for y in walk(x))
    R.check(ta(A.args[1], 'tag_array_address') or has(A.args[1], 'tag_array_address') and any(y is h for y in walk(A.args[1])), 'new:%s:array' % tag, 'the tag array is looked for at %s' % show(A.args[1], 5), w)
    R.check(has(A.args[2], 'tag_count') and any(y is h for y in walk(A.args[2])), 'new:%s:count' % tag, 'the number of tags is taken to be %s' % show(A.args[2], 5), w)
    for e in ev.calls('handle_external_tags'):
        R.check(A.args[2] in e.args, 'new:%s:external:count' % tag, 'not all tags are looked at for being external', w)
    # the scenario tag
    sc = [e for e in ev.calls('get_tag_by_id') if has(e.args[1], 'scenario_tag') and any(y is h for y in walk(e.args[1]))]
    R.check(bool(sc), 'new:%s:scenario' % tag, 'the scenario tag is not checked for', w)
    for e in sc:
        dead(P, R, New, f, 'a cache file without its scenario tag is opened', {mk('isv', call_term(e), 'Some'): False}, good, w, 'new:%s:scenario:none' % tag)
    # what is kept
    inf = [pos(c) for c in m if has(c, 'inferred') and pos(c).op == 'fld']
    R.check(bool(inf), 'new:%s:inferred' % tag, 'nothing depends on whether the base address is inferred', w)
    for guess in (True, False):
        for mod in ((True, False) if gear else (False,)):
            e2 = New(P, {**{c: guess for c in inf}, **({c: mod for c in flag('external_models')})})
            v2, st2 = e2.run(f)
            oks = ends(v2, st2, 'Ok')
            R.check(bool(oks), 'new:%s:%s:never' % (tag, guess), 'such a cache file never opens', w)
            for y, fs in oks:
                y = e2.project(y, 'Ok.0')
                R.ob('fields of opened cache files')
                b = e2.project(y, 'base_memory_address')
                arr = strip(A.args[1])
                want = sub(arr, K(40 if mod else 36)) if guess else base
                R.check(strip(b) is want, 'new:%s:base:%s:%s' % (tag, guess, mod), 'the base address is taken to be %s' % show(b, 6), w)
                for n, x in {'data': data, 'tag_data': fields(d, '2'), 'tags': fields(a, '0'), 'ids': fields(a, '2'), 'bsp_data': fields(s, '1'), 'scenario_tag_data': fields(s, '0')}.items():
                    g = e2.project(y, n)
                    R.check(g is x or strip(g) is x, 'new:%s:%s' % (tag, n), '%s of an opened cache file is %s' % (n, show(g, 6)), w)
                g = e2.project(y, 'scenario_tag')
                R.check(has(g, 'scenario_tag') and any(z is h for z in walk(g)), 'new:%s:scenario_tag' % tag, 'the scenario tag of an opened cache file is %s' % show(g, 5), w)
                g = e2.project(y, 'engine')
                R.check(any(z is eng for z in walk(g)), 'new:%s:engine' % tag, 'the engine of an opened cache file is %s' % show(g, 5), w)
    if not gear:
        return
    # resource maps
    for n in ('bitmaps', 'sounds', 'loc'):
        src = mk('arg', n)
        fd = [e for e in ev.calls('from_data') if e.args[0] is src]
        empty = [c for c in m if pos(c).op == 'eq0' and pos(c).a[0] is mk('len', src)]
        R.check(len(fd) == 1 and bool(empty), 'new:res:%s' % n, '%s.map is not loaded when it is there' % n, w)
        for e in fd:
            dead(P, R, New, f, 'a %s.map that cannot be read is accepted' % n, {mk('isv', call_term(e), 'Ok'): False, mk('eq0', mk('len', src)): False}, good, w, 'new:res:%s:bad' % n)
            for there in (True, False):
                e2 = New(P, {mk('eq0', mk('len', src)): not there})
                v2, st2 = e2.run(f)
                for y, fs in ends(v2, st2, 'Ok'):
                    y = e2.project(e2.project(y, 'Ok.0'), n)
                    R.ob('resource maps kept')
                    okv = all(z.op == 'adt' and (z.a[1] == 'Some' and e2.project(z, 'Some.0') is mk('fld', call_term(e), 'Ok.0') if there else z.a[1] == 'None') for z, _ in alts(y))
                    R.check(okv, 'new:res:%s:%s' % (n, there), '%s.map of an opened cache file is %s' % (n, show(y, 5)), w)
    # checksum
    for xb in (True, False):
        for xm in (True, False):
            e2 = New(P, {**{c: xb for c in flag('external_bsps')}, **{c: xm for c in flag('external_models')}})
            e2.run(f)
            gd = {call_term(e): dom(e2, e, 1) for e in e2.calls('get_domain')}
            seq = []
            for e in e2.calls('update'):
                ds = [gd[x] for x in walk(e.args[1]) if x in gd]
                seq.append(ds[0] if len(ds) == 1 else '?')
            want = (['BSPVertices'] if xb else []) + ['BSP'] + (['ModelVertexData', 'ModelTriangleData'] if xm else []) + ['TagData']
            R.ob('checksummed regions')
            R.check(seq == want, 'crc:%s:%s' % (xb, xm), 'the checksum is that of %s' % ', '.join(seq), w)
    same = [pos(c) for c in m if pos(c).op == 'eq0' and has(c, 'crc', 'crc32')]
    ign = [pos(c) for c in m if pos(c).op == 'eq0' and has(c, 'crc32') and not has(c, 'crc')]
    R.check(bool(same) and bool(ign) and all(c.a[0] is sub(fields(d, '0', 'crc32'), K(0xFFFFFFFF)) or has(c, 'crc32') for c in ign), 'crc:gate', 'nothing depends on whether the checksum matches', w)
    strict = lambda t: {mk('isv', mk('arg', 'parse_strictness'), 'Strict'): t, mk('isv', mk('arg', 'parse_strictness'), 'Relaxed'): not t}
    for ig in (True, False):
        for sm in (True, False):
            for t in (True, False):
                R.ob('checksum cases')
                e2 = New(P, {**{c: ig for c in ign}, **{c: sm for c in same}, **strict(t)})
                v2, st2 = e2.run(f)
                oks = ends(v2, st2, 'Ok')
                must = ig or sm or not t
                R.check(bool(oks) == must, 'crc:case:%s:%s:%s' % (ig, sm, t), 'a cache file is %s where its checksum is %s, %s and strictness %s' % ('opened' if oks else 'refused', 'ignored' if ig else 'given', 'right' if sm else 'wrong', 'asked for' if t else 'not asked for'), w)
                for y, fs in oks:
                    c = e2.project(e2.project(y, 'Ok.0'), 'crc32')
                    R.check(e2.project(c, '0') is fields(d, '0', 'crc32') and any(x.op == 'call' and x.a[0].endswith('CRC32::crc') for x in walk(e2.project(c, '1'))), 'crc:kept', 'the checksums kept are %s' % show(c, 5), w)


def last(v):
    return v.a[1].rsplit('.', 1)[-1] if v.op == 'fld' else (last(v.a[0]) if v.op == 'at' else None)


def short(t):
    return t.rsplit('::', 1)[-1]


def check(P, R):
    engine(P, R)
    header(P, R)
    details(P, R)
    tags(P, R)
    scenario(P, R)
    fixup(P, R)
    external(P, R)
    model_data(P, R)
    vertex_data(P, R)
    opened(P, R, 'gearbox::GearboxCacheFile::new', True)
    opened(P, R, 'xbox::XboxCacheFile::new', False)
