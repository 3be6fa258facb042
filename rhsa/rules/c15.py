"""C15: tag trees find, list, store and cache every tag under its own path, in the place the tree's rules say."""
from ..layout import alts
from ..report import where
from ..truth import *
from ..val import *
from .c11 import words
from .c14 import some as run_some, names, base, cut, said

RULE = ('Each operation of a tag tree is evaluated under every combination of what it asks about (where the tag is, whether there is a copy-on-write directory, whether the content is already there). '
        'Reads, writes, cache entries and handed-on requests must be of the path, content and place the rules for trees give for that combination, and success must follow from them.')
EXPLANATION = 'Abstract evaluation of the tag tree implementations with the file system, the parser and inner trees as unknown functions of their arguments; every outcome is compared with the specified one.'
T = 'ringhopper::tag::tree::'
V = T + 'VirtualTagsDirectory'
TREE = T + 'TagTree'


class Tree(CallEv):
    """calls are recorded with what their arguments hold"""
    apart = ('hash_file', 'to_native_path', 'to_tag_file', 'path_for_tag', 'read_any_tag_from_file_buffer', 'write_tag_to_directory', 'clone_inner', 'iterate_through_all_tags', 'passes', 'tag_path')

    def __init__(self, P, assume=None, **k):
        super().__init__(P, assume, **k)
        self.log = {}

    decide = None       # condition -> truth, None where it may be either

    def settled(self, c):
        r = super().settled(c)
        if r is None and self.decide is not None:
            r = self.decide(c)
        return r

    def held(self, st, a):
        for _ in range(4):
            if a.op == 'ref' and a.a[1].op in ('loc', 'cst'):
                b = self.content(st, a)
                if b is a:
                    break
                a = b
            else:
                break
        return a

    def pre(self, fr, st, c, args, b, line):
        if c.fn is None or self.taken_apart(c):
            self.log[(c.method, fr.id, b)] = (c.method, [self.held(st, a) for a in args], dict(st.facts), c)
        if self.taken_apart(c):
            args = [self.held(st, a) for a in args]
        return super().pre(fr, st, c, args, b, line)

    def of(self, *ms):
        return [x for x in self.log.values() if x[0] in ms]


def deciding(P, fn, assume=None, cls=None):
    ev = (cls or Tree)(P, assume)
    ev.decide = fn
    return ev


def txt(v, f):
    """text of a value; texts and paths are the same however they are borrowed or copied"""
    v = plain(v)
    t = words(v, f)
    return t


SAME = ('to_owned', 'to_path_buf', 'clone', 'as_path', 'as_ref', 'deref', 'as_slice', 'borrow', 'into', 'from', 'as_bytes', 'as_mut', 'as_str', 'deref_mut', 'borrow_mut')


def plain(v, depth=12):
    if depth == 0:
        return v
    if v.op == 'call':
        if v.a[0].rsplit('::', 1)[-1] in SAME and len(v.a[2]) == 1:
            return plain(v.a[2][0], depth - 1)
        return mk('call', v.a[0], v.a[1], tuple(plain(x, depth - 1) for x in v.a[2]), None)
    if v.op in ('fld', 'at', 'cast'):
        return mk(v.op, plain(v.a[0], depth - 1), *v.a[1:])
    if v.op == 'ref' and v.a[1].op not in ('loc', 'cst', 'arg'):
        return mk('ref', v.a[0], plain(v.a[1], depth - 1), v.a[2])
    return v


def check(P, R):
    lookup(P, R)
    opening(P, R)
    writing(P, R)
    listing(P, R)
    caching(P, R)
    handing(P, R)
    R.floor('outcomes of tree operations', 40)
    R.floor('requests handed on', 30)


def outs(R, ev, f):
    v, st = ev.run(f)
    o = outcomes(v, st)
    R.ob('outcomes of tree operations', max(1, len(o)))
    return o


def variant(y):
    return y.a[1] if y.op == 'adt' else None


# ------------------------------------------------------------------------------------------------ where a tag is
def lookup(P, R):
    f = P.one(V + '::path_for_tag')
    if not R.check(f is not None, 'missing:lookup', 'the lookup of tags in directories was not found'):
        return
    R.fn(f)
    w = where(f)
    ev = Tree(P)
    o = outs(R, ev, f)
    found = 0
    exists = [c for c in ev.met if c.op == 'call' and c.a[0].rsplit('::', 1)[-1] in ('exists', 'is_file')]
    for y, fs in o:
        if variant(y) == 'None':
            continue
        found += 1
        y = ev.project(y, 'Some.0')
        i, p = ev.project(y, '0'), ev.project(y, '1')
        want = 'join(#1.directories[%s], to_native_path(#2))' % txt(i, f)
        R.check(txt(p, f) == want, 'lookup', 'a tag is looked up as %s' % txt(p, f)[:140], w)
        R.check(any(t and c in exists and txt(c.a[2][0], f) == txt(p, f) for c, t in fs.items()), 'lookup:there', 'a tag is found in a directory that was not seen to have it', w)
        R.check(counts(i), 'lookup:order', 'directories are not searched from the first on', w)
    R.check(found > 0, 'lookup:never', 'no tag is ever found', w)
    R.check(bool(exists), 'lookup:exists', 'it is not asked whether the file is there', w)
    # it goes on where a directory does not have it, and stops where one does
    e2 = Tree(P, {c: True for c in exists})
    sites = walked(ev, f)
    inner = [(s, it) for s, it in ev.iters.items() if len(s) == 3]
    R.check(bool(sites or inner), 'lookup:walk', 'the directories are not walked through', w)
    for s, it in [(s, it) for s, it, _ in sites if it is not None] + inner:
        R.check(not partial(it) and not any(x.op == 'it' and x.a[0] == 'rev' for x in walk(it)), 'lookup:order', 'directories are not searched from the first on', w)
    for s, it, cs in sites:
        e2 = Tree(P, {c: True for c in cs})
        e2.noend.add(s)
        v, st = e2.run(f)
        R.check(not [y for y, _ in outcomes(v, st) if variant(y) != 'Some'], 'lookup:all', 'a directory is not looked into', w)
        e3 = Tree(P, {**{c: True for c in exists}, **{c: True for c in cs}})
        e3.noend.add(s)
        e3.run(f)
        R.check((0, s[1]) not in e3.again, 'lookup:first', 'the search goes on after the tag was found', w)
    f = P.one('<%s as %s>::contains' % (V, TREE))
    if R.check(f is not None, 'missing:contains', 'contains of directories was not found'):
        R.fn(f)
        for n in ('Some', 'None'):
            ev = Tree(P, {mk('isv', x, n): True for x in look_terms(P, f)})
            for y, fs in outs(R, ev, f):
                r = y.a[1] if y.op == 'k' else ev.settled(y)
                R.check(r is (n == 'Some'), 'contains:' + n, 'contains says %s for a tag that is %s' % (show(y, 4), 'there' if n == 'Some' else 'not there'), where(f))


def look_terms(P, f):
    ev = Tree(P)
    ev.run(f)
    return {c.a[0] for c in ev.met if c.op == 'isv' and c.a[0].op == 'call' and c.a[0].a[0].endswith('::path_for_tag')} | {x for y in [mk('tup', tuple(l[1])) for l in ev.log.values()] for x in walk(y) if x.op == 'call' and x.a[0].endswith('::path_for_tag')}


# ------------------------------------------------------------------------------------------------ reading
def opening(P, R):
    f = P.one('<%s as %s>::open_tag_copy' % (V, TREE))
    if not R.check(f is not None, 'missing:open', 'the opening of tags in directories was not found'):
        return
    R.fn(f)
    w = where(f)
    ev = Tree(P)
    o = outs(R, ev, f)
    place = 'path_for_tag(#1, #2).1'
    oks = [(y, fs) for y, fs in o if variant(y) != 'Err']
    R.check(bool(oks), 'open:never', 'no tag can be opened', w)
    for y, fs in oks:
        t = txt(ev.project(y, 'Ok.0'), f)
        R.check(t == 'read_any_tag_from_file_buffer(read(%s), #1.strictness)' % place or t == 'read_any_tag_from_file_buffer(read(%s), #1.strictness)' % place.replace('.1', '.0.1'), 'open', 'a tag is opened as %s' % t[:160], w)
        # of the group asked for
        g = [c for c, t in fs.items() if t and c.op in ('eq', 'eq0') and 'group' in names(c) and has(c, 'path') and 'read_any_tag_from_file_buffer' in names(c)]
        R.check(bool(g), 'open:group', 'a tag is opened without a look at its group', w)
    gs = [c for c in ev.met if c.op in ('eq', 'eq0') and 'group' in names(c)]
    for c in gs:
        o2 = outs(R, Tree(P, {c: False}), f)
        R.check(not [y for y, _ in o2 if variant(y) == 'Ok'], 'open:group', 'a tag of a group other than asked for is opened', w)
    # the hash kept is that of the file
    hs = [l for l in ev.of('hash_file')]
    R.check(len(hs) == 1 and txt(hs[0][1][0], f) == 'read(%s)' % place, 'open:hash', 'the hash kept with a tag is not that of its file', w)


# ------------------------------------------------------------------------------------------------ writing
def writing(P, R):
    f = P.one(V + '::write_tag_to_directory')
    if not R.check(f is not None, 'missing:write', 'the writing of tags in directories was not found'):
        return
    R.fn(f)
    w = where(f)
    ev = Tree(P)
    o = outs(R, ev, f)
    cow = {c for c in ev.met if c.op == 'isv' and c.a[1] in ('Some', 'None') and txt(c.a[0], f) == '#1.cow_output'}
    found = {c for c in ev.met if c.op == 'isv' and c.a[1] in ('Some', 'None') and c.a[0].op == 'call' and c.a[0].a[0].endswith('::path_for_tag')}
    exist = {c for c in ev.met if c.op == 'call' and c.a[0].rsplit('::', 1)[-1] in ('exists', 'is_file')}
    R.check(bool(cow), 'write:cow', 'it is not asked whether there is a copy-on-write directory', w)
    R.check(bool(found), 'write:found', 'it is not asked where the tag is', w)
    OLD, COW, NEW = 'path_for_tag(#1, #2).1', 'join(#1.cow_output, to_native_path(#2))', 'join(#1.directories[#4], to_native_path(#2))'

    def same(c):
        """the file whose content the condition compares with the tag, if it does"""
        if c.op not in ('eq0', 'eq') or 'to_tag_file' not in names(c):
            return None
        rs = [x for x in walk(c) if x.op == 'call' and x.a[0].rsplit('::', 1)[-1] == 'read']
        return txt(rs[0].a[2][0], f) if len(rs) == 1 else None
    hashes = {c: same(c) for c in ev.met if same(c)}
    for c in hashes:
        sides = [x for x in walk(c) if x.op == 'call' and x.a[0].endswith('::hash_file')]
        if c.op == 'eq0' and sides:
            R.check(len(sides) == 2 and {txt(x.a[2][0], f) for x in sides} == {'to_tag_file(#3)', 'read(%s)' % hashes[c]}, 'write:same', 'what is compared is %s' % sorted(txt(x, f)[:80] for x in sides), w)
    for a in (False, True):
        for b in (False, True):
            base_as = {**{c: (c.a[1] == 'Some') == a for c in cow}, **{c: (c.a[1] == 'Some') == b for c in found}}
            what = '%s, %s' % ('a copy-on-write directory' if a else 'no copy-on-write directory', 'the tag is there' if b else 'a new tag')
            target = COW if a else OLD if b else NEW
            e2 = deciding(P, lambda c: False if same(c) else None, base_as)
            o2 = outs(R, e2, f)
            ws = e2.of('write')
            R.check(bool(ws), 'write:%d%d' % (a, b), 'nothing is written with %s' % what, w)
            for m, args, fs, c in ws:
                ts = {txt(y, f) for y, _ in alts(args[0])}
                R.check(ts == {target}, 'write:%d%d' % (a, b), 'with %s, the file written is %s' % (what, ' or '.join(sorted(ts))[:160]), w)
                R.check(txt(args[1], f) == 'to_tag_file(#3)', 'write:what', 'what is written is %s' % txt(args[1], f)[:120], w)
            for y, fs in o2:
                if variant(y) == 'Err':
                    continue
                r = e2.project(y, 'Ok.0')
                R.check(r is K(True), 'write:unsaid', 'with %s, different content is reported as %s' % (what, 'already there' if r is K(False) else show(r, 4)), w)
                R.check(any(c.op == 'isv' and t == (c.a[1] == 'Ok') and c.a[1] in ('Ok', 'Err') and c.a[0].op == 'call' and c.a[0].a[0].endswith('fs::write') for c, t in fs.items()), 'write:done', 'with %s, success is reported without having written the file' % what, w)
            for file in sorted(set(hashes.values())):
                # skipped where that content is there already, and where it was read from is where it would be read or written
                e3 = deciding(P, lambda x: same(x) == file if same(x) else True if x in exist else None, base_as)
                o3 = outs(R, e3, f)
                if file == OLD and b or file == COW and a:
                    R.check(all(e3.project(y, 'Ok.0') is K(False) for y, _ in o3 if variant(y) != 'Err') and not e3.of('write'), 'write:again', 'with %s, content that is there already is written again' % what, w)
            R.check(set(hashes.values()) <= {OLD, COW}, 'write:compare', 'the tag is compared with %s' % sorted(set(hashes.values()) - {OLD, COW}), w)
    R.check(set(hashes.values()) == {OLD, COW}, 'write:compare', 'the tag is only compared with %s' % sorted(set(hashes.values())), w)
    f = P.one(V + '::hash_file')
    if f is not None:
        R.fn(f)
        e4 = CallEv(P)
        e4.apart = ('crc64',)
        v, st = e4.run(f)
        for y, fs in outcomes(v, st):
            R.check(y.op == 'call' and y.a[0].rsplit('::', 1)[-1] == 'crc64' and words(y.a[2][-1], f) == '#1', 'hash', 'the hash of a file is %s' % words(y, f)[:100], where(f))
    f = P.one('<%s as %s>::write_tag' % (V, TREE))
    if R.check(f is not None, 'missing:write_tag', 'the writing of tags was not found'):
        R.fn(f)
        ev = Tree(P)
        for y, fs in outs(R, ev, f):
            ok = y.op == 'call' and y.a[0].endswith('::write_tag_to_directory') and [txt(x, f) for x in y.a[2][:3]] == ['#1', '#2', '#3']
            ds = {txt(x, f) for x, _ in alts(y.a[2][3])} if ok else set()
            R.check(ok and ds <= {'path_for_tag(#1, #2).0', '0'} and ds, 'write_tag', 'a tag is written as %s' % txt(y, f)[:140], where(f))


# ------------------------------------------------------------------------------------------------ listing
def listing(P, R):
    f = P.one('<%s as %s>::files_in_path' % (V, TREE))
    if R.check(f is not None, 'missing:list', 'the listing of directories was not found'):
        R.fn(f)
        w = where(f)
        ev = Tree(P)
        ev.apart = tuple(Tree.apart) + ('from_str', 'new')
        o = outs(R, ev, f)
        for y, fs in o:
            if variant(y) == 'None':
                continue
        rd = ev.of('read_dir')
        R.check(len(rd) == 1 and txt(rd[0][1][0], f).startswith('join(#1.directories[') and txt(rd[0][1][0], f).endswith(', #2)'), 'list:dir', 'what is listed is %s' % [txt(x[1][0], f)[:100] for x in rd], w)
        unique(P, R, f, w)
        items(P, R, ev, f, w)
    f = P.one('<%s::TagTreeTagIterator as core::iter::traits::iterator::Iterator>::next' % T[:-2]) or next((g for p, g in P.fns.items() if 'TagTreeTagIterator' in p and p.endswith('Iterator>::next')), None)
    if R.check(f is not None, 'missing:iterate', 'the walk through all tags was not found'):
        R.fn(f)
        w = where(f)
        ev = Tree(P)
        ev.apart = tuple(Tree.apart) + ('files',)
        o = outs(R, ev, f)
        pas = [c for c in ev.met if c.op == 'call' and c.a[0].endswith('::passes')]
        R.check(bool(pas), 'iterate:filter', 'tags are not held to the filter', w)
        if pas:
            o2 = outs(R, deciding(P, lambda x: False if 'passes' in names(x) else x.a[1] == 'Some' if x.op == 'isv' and x.a[1] in ('Some', 'None') and x.a[0].op == 'fld' and x.a[0].a[1] == 'filter' else None, cls=Tree2), f)
            R.check(not [y for y, _ in o2 if variant(y) == 'Some'], 'iterate:filter', 'a tag that does not pass the filter is listed', w)
        kind = lambda n: lambda x: (True if 'passes' in names(x) else None) if x.op != 'isv' else x.a[1] == n if x.a[1] in ('Tag', 'Directory') else None if x.a[1] not in ('Some', 'None') else (x.a[1] == 'Some') if names(x) & {'pop_front', 'pop', 'next', 'pop_back'} else None
        e2 = deciding(P, kind('Tag'), cls=Tree2)
        o2 = outs(R, e2, f)
        R.check(not any(h[0] == 0 for h in e2.again) and any(variant(y) == 'Some' for y, _ in o2), 'iterate:every', 'a tag that passes the filter is not listed', w)
        e2 = deciding(P, kind('Directory'), cls=Tree2)
        outs(R, e2, f)
        deep = lambda e: [l for l in e.of('push', 'push_back', 'extend') if 'files' in names(l[1][1])]
        ps = deep(e2)
        for c in [c for c in e2.met if c.op != 'isv' and e2.settled(c) is None and not c.op == 'le0']+ [c for c in e2.met if c.op == 'le0' and e2.settled(c) is None and not is_last(c)]:
            for t in (True, False):
                e3 = deciding(P, kind('Directory'), {c: t}, cls=Tree2)
                e3.run(f)
                ps = ps and deep(e3)
        R.check(bool(ps), 'iterate:deep', 'the files of a directory are not walked through', w)
        for y, fs in o:
            if variant(y) == 'Some':
                t = ev.project(y, 'Some.0')
                R.check('tag_path' in names(t), 'iterate:path', 'a tag is listed as %s' % txt(t, f)[:100], w)


def is_last(c):
    """whether there is a last element"""
    k, d = lin_parts(c.a[0])
    return k == 1 and len(d) == 1 and next(iter(d.items()))[0].op == 'len'


class Tree2(Tree):
    apart = tuple(Tree.apart) + ('files',)


def reached(P, f, seen=None):
    seen = seen if seen is not None else {}
    if f.p in seen:
        return seen
    seen[f.p] = f
    for g in P.closures_of.get(f.p, []):
        reached(P, g, seen)
    return seen


def calls_of(P, f):
    """methods called in a function and its closures"""
    out = []
    for g in reached(P, f).values():
        for b in g.bb:
            t = b[1]
            if t[0] == 'call' and isinstance(t[1], list) and t[1][0] == 'k' and len(t[1]) > 2 and isinstance(t[1][2], dict) and 'fn' in t[1][2]:
                out.append((t[1][2]['fn']['f'], g))
    return out


def unique(P, R, f, w):
    cs = [n for n, g in calls_of(P, f)]
    last = lambda n: n.rsplit('::', 1)[-1]
    s = {last(n) for n in cs}
    sets = [n for n in cs if 'Set' in n and last(n) in ('insert', 'contains')] + [n for n in cs if 'Map' in n and last(n) in ('insert', 'contains_key', 'entry')]
    ok = bool(sets) or bool(s & {'dedup', 'dedup_by', 'dedup_by_key'}) and bool(s & {'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key'})
    ok = ok or (last('x') and any(last(n) in ('any', 'contains') for n in cs) and 'push' in s)
    R.ob('outcomes of tree operations')
    for g in reached(P, f).values():
        ns = [n for n, _ in calls_of(P, g)] if g is not f else []
        if any(('HashSet' in n or 'BTreeSet' in n or 'hash::set' in n) and last(n) == 'insert' for n in ns) and g.lty(0) == 'bool':
            e2 = Tree(P)
            v, st = e2.run(g)
            for y, fs in outcomes(v, st):
                ok = ok and y.op == 'call' and y.a[0].rsplit('::', 1)[-1] == 'insert' and has(y, 'path', 'tag_group')
    R.check(ok, 'list:twice', 'a tag or directory that is in several directories is listed several times', w)


def items(P, R, ev, f, w):
    """what is listed is named by where it is under the directory"""
    seen = {}
    for g in reached(P, f).values():
        if g is f:
            continue
        e2 = Tree(P)
        e2.apart = tuple(Tree.apart) + ('from_str', 'new')
        v, st = e2.run(g)
        for l in e2.of('new'):
            if 'TagTreeItem' in l[3].norm or l[3].fn is not None and 'TagTreeItem' in l[3].fn.p:
                seen[g.p] = (g, e2, l)
                if l[1][0].op == 'adt' and l[1][0].a[1] == 'Tag':
                    ok = [c for c, t in l[2].items() if c.op == 'isv' and c.a[1] in ('Ok', 'Err') and t == (c.a[1] == 'Ok') and any(x.op == 'call' and x.a[0].endswith('TagPath::new') for x in walk(c))]
                    R.check(bool(ok), 'list:legal', 'a file is listed as a tag though its name may not be that of a tag', w)
        for l in e2.of('from_str'):
            R.check('rfind' in names(l[1][0]) or 'rsplit_once' in names(l[1][0]) or 'extension' in names(l[1][0]), 'list:group', 'the group of a file is taken from %s' % words(l[1][0], g)[:120], w)
        for l in e2.of('truncate'):
            R.check('rfind' in names(l[1][1]), 'list:name', 'the name of a file is cut at %s' % words(l[1][1], g)[:100], w)
    R.check(bool(seen), 'list:items', 'no item is listed', w)


# ------------------------------------------------------------------------------------------------ caching
def caching(P, R):
    C = T + 'CachingTagTree'
    of = lambda n: next((g for p, g in P.fns.items() if 'CachingTagTree' in p and p.endswith('::' + n) and '{' not in p.rsplit('::', 1)[-1]), None)
    f = of('open_tag_shared')
    if R.check(f is not None, 'missing:cache:open', 'the opening of cached tags was not found'):
        R.fn(f)
        w = where(f)
        ev = Tree(P)
        o = outs(R, ev, f)
        gets = [l for l in ev.of('get', 'get_mut', 'remove', 'entry', 'contains_key') if 'HashMap' in l[3].norm or 'hash' in l[3].norm]
        R.check(bool(gets) and all(txt(l[1][1], f) == '#2' for l in gets), 'cache:key', 'the cache is asked for %s' % [txt(l[1][1], f)[:60] for l in gets if len(l[1]) > 1], w)
        ins = ev.of('insert')
        if not ins:
            # put where it is missing
            es, os = ev.of('entry'), ev.of('or_insert')
            if len(es) == len(os) == 1:
                ins = [('insert', [es[0][1][0], es[0][1][1], os[0][1][1]])]
        opens = ev.of('open_tag_copy', 'open_tag_shared')
        R.check(len(opens) == 1 and txt(opens[0][1][0], f) == '#1.inner' and txt(opens[0][1][1], f) == '#2', 'cache:inner', 'a tag that is not cached is opened as %s' % [[txt(x, f)[:40] for x in l[1]] for l in opens], w)
        for l in ins:
            R.check(txt(l[1][1], f) == '#2' and 'open_tag_copy' in names(l[1][2]) | {x.a[0].rsplit('::', 1)[-1] for x in walk(l[1][2]) if x.op == 'call'}, 'cache:insert', 'a tag is cached under %s as %s' % (txt(l[1][1], f)[:60], txt(l[1][2], f)[:100]), w)
        R.check(len(ins) == 1, 'cache:insert', 'a tag that was opened is not cached', w)
        hit = [c for c in ev.met if c.op == 'isv' and c.a[1] in ('Some', 'None') and 'get' in names(c)]
        for y, fs in o:
            if variant(y) == 'Err':
                continue
            r = ev.project(y, 'Ok.0')
            ns = names(r)
            kept = [l[1][2] for l in ins]
            R.check('get' in ns and 'open_tag_copy' not in ns or any(plain(r) is plain(k) for k in kept), 'cache:same', 'what is given is not what is cached: %s' % txt(r, f)[:120], w)
        for c in hit:
            e2 = Tree(P, {c: c.a[1] == 'Some'})
            outs(R, e2, f)
            R.check(not e2.of('open_tag_copy', 'open_tag_shared', 'insert'), 'cache:hit', 'a cached tag is opened again', w)
    f = of('open_tag_copy')
    if R.check(f is not None, 'missing:cache:copy', 'the copying of cached tags was not found'):
        R.fn(f)
        ev = Tree(P)
        ev.apart = tuple(Tree.apart) + ('open_tag_shared',)
        for y, fs in outs(R, ev, f):
            if variant(y) == 'Err' or 'Err.0' in show(y, 9) and variant(y) is None:
                continue
            t = names(y)
            sh = [x for x in walk(y) if x.op == 'call' and x.a[0].endswith('open_tag_shared')]
            R.check('clone_inner' in t and sh and all([txt(a, f) for a in x.a[2]] == ['#1', '#2'] for x in sh), 'cache:copy', 'a copy of a tag is %s' % txt(y, f)[:120], where(f))
    f = of('write_tag')
    if R.check(f is not None, 'missing:cache:write', 'the writing of cached tags was not found'):
        R.fn(f)
        w = where(f)
        ev = Tree(P)
        o = outs(R, ev, f)
        strat = [c for c in ev.met if has(c, 'strategy')]
        R.check(bool(strat), 'cache:strategy', 'tags are written without a look at the strategy', w)
        for n in ('Instant', 'Manual'):
            e2 = Tree(P, {c: holds(P, c, n) for c in strat})
            o2 = outs(R, e2, f)
            ws = e2.of('write_tag')
            ins = e2.of('insert')
            R.check(bool(ws) == (n == 'Instant'), 'cache:write:' + n, 'with the strategy %s, a tag is %swritten to the inner tree at once' % (n, '' if ws else 'not '), w)
            for l in ws:
                R.check([txt(x, f) for x in l[1]] == ['#1.inner', '#2', '#3'], 'cache:write:args', 'the inner tree is given %s' % [txt(x, f)[:50] for x in l[1]], w)
            R.check(len(ins) == 1 and txt(ins[0][1][1], f) == '#2' and any(x.op == 'call' and x.a[0].rsplit('::', 1)[-1] == 'clone_inner' and txt(x.a[2][0], f) == '#3' for x in walk(ins[0][1][2])), 'cache:write:insert', 'a tag that is written is cached as %s' % [[txt(x, f)[:60] for x in l[1][1:]] for l in ins], w)
            if n == 'Instant':
                for y, fs in o2:
                    if variant(y) == 'Ok':
                        r = e2.project(y, 'Ok.0')
                        R.check(r.op == 'fld' and 'write_tag' in names(r), 'cache:write:result', 'a cached tag is reported as saved whatever the inner tree says', w)
            for l in ins:
                if n == 'Instant':
                    R.check(any(c.op == 'isv' and 'write_tag' in names(c) and t == (c.a[1] == 'Ok') and c.a[1] in ('Ok', 'Err') for c, t in l[2].items()), 'cache:write:first', 'a tag is cached though it may not have been written', w)
    for n in ('commit', 'commit_all'):
        f = of(n)
        if not R.check(f is not None, 'missing:cache:' + n, '%s of cached tags was not found' % n):
            continue
        R.fn(f)
        w = where(f)
        ev = Tree(P)
        o = outs(R, ev, f)
        ws = ev.of('write_tag')
        R.check(len(ws) == 1, 'cache:%s' % n, '%s writes tags in %d ways' % (n, len(ws)), w)
        for l in ws:
            a, k, t = l[1]
            if n == 'commit':
                ok = txt(k, f) == '#2' and any(x.op == 'call' and x.a[0].rsplit('::', 1)[-1] == 'get' and txt(x.a[2][1], f) == '#2' for x in walk(t))
            else:
                es = [x for x in walk(k) if x.op in ('elem', 'elemix')]
                ok = len(es) == 1 and es[0] in set(walk(t)) and k.op == 'fld' and k.a[1] == '0' and any(x.op == 'fld' and x.a[1] == '1' and x.a[0] is k.a[0] for x in walk(t))
            R.check(ok and txt(a, f) == '#1.inner', 'cache:%s:args' % n, '%s writes %s under %s' % (n, txt(t, f)[:80], txt(k, f)[:60]), w)
        if n == 'commit_all':
            for s, it, cs in walked(ev, f):
                R.check(not partial(it), 'cache:commit_all:every', 'not every cached tag is committed', w)
            ps = ev.of('push')
            some_only = [c for c in ev.met if c.op == 'isv' and c.a[1] not in ('Ok', 'Err', 'Some', 'None') and 'write_tag' in names(c)]
            R.check(bool(ps) and not some_only, 'cache:commit_all:errors', 'the errors of committing are not reported', w)
        else:
            for y, fs in o:
                if variant(y) == 'Err':
                    continue
                R.check('write_tag' in names(y), 'cache:commit:result', 'commit gives %s' % txt(y, f)[:80], w)
    f = of('is_read_only')
    if f is not None:
        R.fn(f)
        ev = Tree(P)
        outs(R, ev, f)
        strat = [c for c in ev.met if has(c, 'strategy')]
        e2 = Tree(P, {c: holds(P, c, 'Manual') for c in strat})
        R.check(strat and all(y is K(True) for y, _ in outs(R, e2, f)), 'cache:readonly', 'a tree that is committed by hand is not read-only', where(f))
        e2 = Tree(P, {c: holds(P, c, 'Instant') for c in strat})
        R.check(all('is_read_only' in names(y) for y, _ in outs(R, e2, f)), 'cache:readonly', 'whether a tree is read-only does not depend on the inner tree', where(f))


def holds(P, c, n):
    """truth of a condition on the strategy where the strategy is n"""
    if c.op == 'not':
        return not holds(P, c.a[0], n)
    vs = [v[0] for v in P.adts[T + 'CachingTagTreeWriteStrategy']['variants']]
    if c.op == 'isv':
        return c.a[1] == n
    if c.op == 'eq0':
        k, d = lin_parts(c.a[0])
        co = next(iter(d.values()))
        return -k // co == vs.index(n)
    if c.op == 'eq':
        return any(x.op == 'adt' and x.a[1] == n for x in c.a) or any(x.op == 'cst' and n in str(x.a) for y in c.a for x in walk(y)) or any(x.op == 'k' and x.a[1] == vs.index(n) for x in c.a)
    return None


# ------------------------------------------------------------------------------------------------ trees that hand on
def handing(P, R):
    METHODS = ['open_tag_copy', 'open_tag_shared', 'files_in_path', 'write_tag', 'is_read_only', 'contains', 'root', 'get_all_tags_with_filter', 'tree_type']
    own = {'CachingTagTree': {'open_tag_copy', 'open_tag_shared', 'write_tag', 'is_read_only'}}
    n = 0
    for p, f in sorted(P.fns.items()):
        if not p.endswith(tuple('as %s>::%s' % (TREE, m) for m in METHODS)) or not (f.file or '').endswith('tag/tree.rs'):
            continue
        m = p.rsplit('::', 1)[1]
        who = f.selfty or ''
        if 'VirtualTagsDirectory' in who and 'Caching' not in who or 'Mock' in who:
            continue
        if any(k in who and m in ms for k, ms in own.items()):
            continue
        ev = Tree(P)
        ev.apart = tuple(Tree.apart) + tuple(METHODS)
        v, st = ev.run(f)
        R.fn(f)
        if v is None:
            R.check(m in ('files_in_path', 'write_tag', 'root'), 'hand:%s:never' % p, '%s of %s never gives a result' % (m, who), where(f))
            continue
        if 'Arc<' in who and m == 'is_read_only':
            R.check(all(y is K(True) for y, _ in outcomes(v, st)), 'hand:%s' % p, 'a shared tree says it can be written to', where(f))
            continue
        n += 1
        R.ob('requests handed on')
        for y, fs in outcomes(v, st):
            ok = y.op == 'call' and y.a[0].rsplit('::', 1)[-1] == m
            ok = ok and [txt(x, f) for x in y.a[2][1:]] == ['#%d' % i for i in range(2, f.argc + 1)] and has_self(y.a[2][0])
            R.check(ok, 'hand:%s' % p, '%s of %s gives %s' % (m, who.rsplit('::', 1)[-1], txt(y, f)[:120]), where(f))


def has_self(v):
    return any(x.op == 'arg' and x.a[0] in ('self',) for x in walk(v))
