"""C21: renaming tags renames exactly the tags asked for, loses none of them, and leaves no reference to an old path."""
from ..layout import alts
from ..loops import entries
from ..report import where
from ..truth import *
from ..val import *
from .c14 import names
from .c15 import txt, plain, variant
from .c22 import D, Walk, run, any_of, inner_walks, ends_ok
import re

RULE = ('Renaming is evaluated for each kind of tag, each answer of the tree and each failure of the file system in turn: what is renamed, to what, what is moved where, what is moved back on failure, '
        'which references change into what, and which tags are saved must be what the rules for renaming say.')
EXPLANATION = 'Abstract evaluation of renaming with the file system and the trees as unknown functions of their arguments; a pass through a list that can go around without the step asked for is a violation.'
F = D + 'refactor_paths_for_tag_tree'
OPEN = ('open_tag_shared', 'open_tag_copy')


class Ref(Walk):
    apart = tuple(x for x in Walk.apart if x not in ('iterate_through_all_tags', 'for_each_field', 'for_each_field_mut')) + (
        'passes', 'to_native_path', 'path_for_tag', 'commit', 'get_all_tags_with_filter', 'get_all_tags', 'get_directory') + OPEN

    def merge_header(self, fr, b, ins, wid, prev):
        self.__dict__.setdefault('fn_of', {})[fr.id] = fr.fn
        return super().merge_header(fr, b, ins, wid, prev)

    def taken_apart(self, c):
        return super().taken_apart(c) or c.method == 'new' and c.norm.endswith('TagPath::new')


def check(P, R):
    f = P.one(F)
    if not R.check(f is not None, 'missing:rename', 'the renaming of tags was not found'):
        return
    R.fn(f)
    J = Job(P, R, f)
    J.nothing()
    J.chosen()
    J.moved()
    J.undone()
    J.after()
    J.threads()
    J.saved()
    R.floor('passes through lists', 8)
    R.floor('outcomes of renaming', 5)


def sep(t):
    """texts whose separators are made the same"""
    p = None
    while p != t:
        p = t
        t = re.sub(r"replace\((#\d|from|to|~#\d), '[/\\]+', '\\\\'\)", lambda m: '~' + m.group(1).lstrip('~'), t)
    return t


def ok(*methods):
    return lambda yes: lambda c: (c.a[1] in ('Ok', 'Some')) == yes if c.op == 'isv' and c.a[1] in ('Ok', 'Err', 'Some', 'None') and c.a[0].op in ('call', 'chk') and c.a[0].a[0].rsplit('::', 1)[-1] in methods else None


def is_new(x):
    return x.op == 'call' and x.a[0].endswith('TagPath::new')


def at_site(c, s):
    """mentions the element a walk is at"""
    return any(x.op in ('elem', 'elemix', 'elemn') and any(y == s or isinstance(y, tuple) and y and y[0] == s for y in x.a) or x.op == 'lphi' and x.a[:2] == s and counts(x) for x in walk(c))


def calls_in(v, *methods):
    return [x for x in walk(v) if x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in methods]


LIST = ('get_all_tags_with_filter', 'get_all_tags')


class Job:
    def __init__(self, P, R, f):
        self.P, self.R, self.f, self.w = P, R, f, where(f)
        self.same = lambda yes: lambda c: yes if c.op == 'eq' and {sep(txt(x, f)).lstrip('~') for x in c.a} == {'#1', '#2'} else None
        self.passes = lambda yes: lambda c: yes if c.op == 'call' and c.a[0].endswith('::passes') and calls_in(c.a[2][1], *LIST) and not calls_in(c.a[2][1], 'new') else None
        self.inside = lambda yes: lambda c: yes if c.op == 'call' and c.a[0].endswith('::contains') and not calls_in(c.a[2][1], 'new') and calls_in(c.a[2][0], *LIST) and runs(c.a[2][0]) else None
        self.starts = lambda yes: lambda c: yes if c.op == 'call' and c.a[0].endswith('::starts_with') or c.op == 'isv' and c.a[1] in ('Some', 'None') and c.a[0].op == 'call' and c.a[0].a[0].endswith('strip_prefix') and (c.a[1] == 'Some') == yes else None
        self.kind = lambda k: lambda c: c.a[1] == k if c.op == 'isv' and c.a[1] in ('All', 'Start') else None
        self.legal = lambda yes: lambda c: (c.a[1] == 'Ok') == yes if c.op == 'isv' and c.a[1] in ('Ok', 'Err') and is_new(c.a[0]) else None
        self.stay = lambda yes: lambda c: yes if txt(c, f) == '#6' else None
        self.taken = lambda yes: lambda c: yes if c.op == 'call' and c.a[0].endswith('::contains') and calls_in(c.a[2][1], 'new') and calls_in(c.a[2][0], *LIST) and not runs(c.a[2][0]) else None
        self.twice = lambda yes: lambda c: (yes if c.op in ('eq', 'quant') and any(is_new(x) for x in walk(c)) and self.old(c) else None)
        self.ev = run(P, f, cls=Ref)
        R.ob('outcomes of renaming', len(self.ev.outs))
        self.walks = inner_walks(self.ev, f)

    def old(self, c):
        """about a tag that was already found to be renamed"""
        if c.op == 'quant':
            return all(self.old(x) for x in walk(c) if x.op == 'eq' and any(is_new(y) for y in walk(x)))
        return any(last(x) == '1' and not calls_in(x, *LIST) for x in c.a)

    def run(self, decide=None, assume=None, stop=None, noend=()):
        return run(self.P, self.f, decide, assume, stop, noend, Ref)

    # ------------------------------------------------------------------ nothing to rename
    def nothing(self):
        R, f, w = self.R, self.f, self.w
        R.check(any(self.same(True)(c) for c in self.ev.met), 'same:asked', 'it is not asked whether the two paths are the same', w)
        e = self.run(self.same(True))
        R.check(e.outs and all(variant(y) == 'Ok' for y, _ in e.outs) and not e.of('rename', 'spawn', 'commit'), 'same:nothing', 'renaming a path to itself does something', w)
        a = [l for l in self.ev.of(*LIST)]
        R.check(len(a) == 1 and txt(a[0][1][0], f) == '#3' and (len(a[0][1]) < 2 or variant(a[0][1][1]) == 'None'), 'all:tags', 'the tags looked at are not all tags of the tree', w)

    # ------------------------------------------------------------------ what is renamed, and to what
    def chosen(self):
        R, f, w = self.R, self.f, self.w
        pushes = [l for l in self.ev.of('push') if len(l[1]) > 1 and plain(l[1][1]).op == 'tup' and any(is_new(x) for x in walk(l[1][1]))]
        sites = [s for s in self.walks if s[0][0] == 0 and any(at_site(l[1][1], s[0]) for l in pushes)]
        if not R.check(len(pushes) == 1 and len(sites) == 1, 'chosen:list', 'tags to be renamed are gathered in %d places' % len(pushes), w):
            self.site = None
            return
        s, it, cs = sites[0]
        self.first = s
        R.check(it is None or not partial(it), 'chosen:all', 'tags are left out by their place', w)
        on = {c: True for c in cs}
        go = lambda *d: any_of(self.same(False), *d)
        is_push = lambda ev, c, a, st: c.method == 'push' and len(a) > 1 and any(is_new(x) for x in walk(ev.held(st, a[1])))
        fine = (self.passes(True), self.inside(True), self.legal(True), self.twice(False))

        def never(key, what, *d):
            e = self.run(go(*d), on, is_push, [s])
            R.check(not e.stopped and not e.outs, key, what, w)

        never('chosen:filter', 'a tag the filter does not let pass is renamed, or stops renaming', self.passes(False))
        never('chosen:inside', 'a tag whose path does not have the text in it is renamed, or stops renaming', self.inside(False), self.starts(False))
        never('chosen:start', 'a tag whose path does not begin with the text is renamed, or stops renaming', self.kind('Start'), self.starts(False))
        for c in self.ev.met:
            if self.passes(True)(c):
                t = txt(c, f)
                R.check(t.startswith('passes(#7, ') and calls_in(c.a[2][1], *LIST) and at_site(c, s), 'chosen:asked', 'the filter is asked about %s' % t[:80], w)
            elif self.inside(True)(c):
                R.check(sep(txt(c.a[2][1], f)) == '~#1' and txt(c.a[2][0], f).endswith('.path'), 'chosen:asked', 'what is looked for is %s' % txt(c, f)[:120], w)
            elif self.starts(True)(c) and c.op == 'call':
                R.check(sep(txt(c.a[2][1], f)) == '~#1' and txt(c.a[2][0], f).endswith('.path'), 'chosen:asked', 'what a path must begin with is %s' % txt(c, f)[:120], w)
        for kind in ('All', 'Start'):
            for stay in (True, False):
                R.ob('passes through lists')
                e = self.run(go(*fine, self.starts(True), self.kind(kind), self.stay(stay), self.taken(stay)), on, is_push, [s])
                R.check(e.stopped and not goes_on(e, f, s), 'chosen:each', 'a tag to be renamed is passed over', w)
                e = self.run(go(*fine, self.starts(True), self.kind(kind), self.stay(stay), self.taken(not stay)), on, is_push, [s])
                R.check(not e.stopped and e.outs and not ends_ok(e) and not goes_on(e, f, s), 'chosen:there', 'a tag is renamed to one that is already there' if not stay else 'references are changed to a tag that is not there', w)
            # what it becomes
            e = self.run(go(*fine, self.kind(kind), self.starts(True)), on, None, [s])
            for l in e.of('push'):
                if len(l[1]) < 2 or not any(is_new(x) for x in walk(l[1][1])):
                    continue
                a, b = plain(l[1][1]).a[0]
                n = [x for x in walk(b) if is_new(x)]
                a0 = txt(a, f)
                tag = re.sub(r'^&', '', a0)
                R.check(at_site(a, s) and calls_in(a, *LIST) and not a0.endswith(('.path', '.group')), 'chosen:tag', 'what is renamed is %s' % a0[:100], w)
                R.check(len(set(n)) == 1 and b.op == 'fld' and variant_path(b), 'chosen:name', 'what a tag becomes is %s' % txt(b, f)[:100], w)
                for x in n[:1]:
                    g = txt(x.a[2][1], f)
                    R.check(g.endswith('.group') and at_site(x.a[2][1], s), 'chosen:group', 'the group of a renamed tag is %s' % g[:100], w)
                    for y, _ in alts(x.a[2][0]):
                        t = sep(txt(y, f))
                        m = plain(y)
                        args = [sep(txt(q, f)) for q in m.a[2]] if m.op == 'call' else []
                        if kind == 'All':
                            good = m.op == 'call' and m.a[0].endswith('::replace') and args[0].endswith('.path') and args[1:] == ['~#1', '~#2']
                        else:
                            good = m.op == 'call' and m.a[0].endswith('::replacen') and args[0].endswith('.path') and args[1:] == ['~#1', '~#2', '1']
                            good = good or 'strip_prefix' in names(y) and '~#1' in t.replace('from', '#1') or False
                        R.check(good, 'chosen:text:' + kind, 'the path of a renamed tag becomes %s' % t[:160], w)
        e = self.run(go(*fine[:2], self.starts(True), self.legal(False)), on, is_push, [s])
        R.check(not e.stopped and e.outs and not ends_ok(e) and not goes_on(e, f, s), 'chosen:legal', 'a path that is not legal is passed over', w)
        # two tags cannot become one
        inner = [x for x in self.walks if x[0] != s and any(self.twice(True)(c) and at_site(c, x[0]) for c in self.ev.met)]
        quant = {c: c.a[0] == 'any' for c in self.ev.met if c.op == 'quant' and self.twice(True)(c)}
        R.check(len(inner) == 1 or bool(quant), 'chosen:twice', 'it is not asked whether two tags would become the same', w)
        for q, it, qs in inner:
            R.check(it is None or not partial(it), 'chosen:twice', 'tags to be renamed are left out by their place', w)
            e = self.run(go(*fine[:3], self.starts(True), self.stay(False), self.taken(False), self.twice(True)), {**on, **{c: True for c in qs}}, is_push, [s, q])
            R.check(not e.stopped and e.outs and not ends_ok(e) and not goes_on(e, f, s) and not goes_on(e, f, q), 'chosen:twice', 'two tags are renamed to the same', w)
        if not inner:
            e = self.run(go(*fine[:3], self.starts(True), self.stay(False), self.taken(False), self.twice(True)), on, is_push, [s])
            R.check(not e.stopped and e.outs and not ends_ok(e), 'chosen:twice', 'two tags are renamed to the same', w)
        for e in (self.run(any_of(self.same(False)), on, None, [s]),):
            R.check(not e.of('rename', 'spawn', 'commit', 'create_dir_all'), 'chosen:before', 'tags are moved before it is known which are to be', w)

    # ------------------------------------------------------------------ moving them
    def moved(self):
        R, f, w = self.R, self.f, self.w
        self.moving = None
        renames = [l for l in self.ev.of('rename')]
        there = [l for l in renames if calls_in(l[1][0], 'path_for_tag')]
        sites = [x for x in self.walks if any(at_site(l[1][0], x[0]) for l in there)]
        if not R.check(len(there) == 1 and len(sites) == 1, 'moved:place', 'tags are moved in %d places' % len(there), w):
            return
        s, it, cs = sites[0]
        self.moving = s
        R.check(it is None or not partial(it), 'moved:all', 'tags are left out by their place', w)
        on = {c: True for c in cs}
        src, dst = there[0][1][:2]
        p = [x for x in calls_in(src, 'path_for_tag')]
        R.check(len(set(p)) == 1 and txt(p[0].a[2][0], f) == '#3' and txt(p[0].a[2][1], f).endswith('.0') and at_site(p[0], s) and txt(src, f).endswith(').1'), 'moved:from', 'what is moved is %s' % txt(src, f)[:120], w)
        t = txt(dst, f)
        n = [x for x in calls_in(dst, 'to_native_path')]
        R.check(t.startswith('join(get_directory(#3, path_for_tag(#3, ') and len(set(n)) == 1 and txt(n[0].a[2][0], f).endswith('.1') and at_site(n[0], s), 'moved:to', 'tags are moved to %s' % t[:160], w)
        go = lambda *d: any_of(self.same(False), self.stay(False), *d)
        steps = (ok('path_for_tag', 'get_directory', 'parent'), ok('create_dir_all'), ok('rename'))
        good = [x(True) for x in steps]
        is_move = lambda ev, c, a, st: c.method == 'rename' and calls_in(ev.held(st, a[0]), 'path_for_tag')
        is_note = lambda ev, c, a, st: c.method in ('push', 'push_back', 'insert') and len(a) == 2 and pair_of(ev.held(st, a[1]))
        for what, stop in (('a tag to be renamed is not moved', is_move), ('it is not noted that a tag was moved', is_note),
                           ('the directory a tag moves to is not made', lambda ev, c, a, st: c.method == 'create_dir_all' and calls_in(ev.held(st, a[0]), 'to_native_path'))):
            R.ob('passes through lists')
            e = self.run(go(*good), on, stop, [s])
            R.check(e.stopped and not goes_on(e, f, s), 'moved:each', what, w)
        e = self.run(go(*good), on, lambda ev, c, a, st: c.method == 'create_dir_all' and calls_in(ev.held(st, a[0]), 'to_native_path'), [s])
        R.check(not [l for l in e.of('rename') if calls_in(l[1][0], 'path_for_tag')], 'moved:dirs', 'a tag is moved before its directory is made', w)
        self.note = [l for l in self.ev.of('push', 'push_back', 'insert') if len(l[1]) == 2 and pair_of(l[1][1])]
        for l in self.note:
            a, b = [txt(x, f) for x in plain(l[1][1]).a[0]]
            R.check(re.sub(r'\.Some\.0', '', a) != '' and 'path_for_tag' in a and 'to_native_path' not in a and 'to_native_path' in b, 'moved:note', 'what is noted of a move is %s' % a[:80], w)
        # failures end it
        for i, x in enumerate(steps):
            R.ob('outcomes of renaming')
            bad = any_of(self.same(False), self.stay(False), *good[:i], x(False))
            if i == 0:
                bad = any_of(self.same(False), self.stay(False), ok('path_for_tag')(False))
            e = self.run(bad, on, None, [s])
            R.check(not goes_on(e, f, s), 'moved:fails', 'a tag that cannot be moved is passed over', w)
            noted = [l for l in e.of('push', 'push_back') if len(l[1]) == 2 and pair_of(l[1][1])]
            R.check(not noted, 'moved:fails', 'a tag that was not moved counts as moved', w)
            # what was moved is then less than what was to be
            differs = any_of(bad, short(True))
            e = self.run(differs, on, None, [s])
            R.check(e.outs and not ends_ok(e), 'moved:error', 'a failure to move tags is no error', w)
        e = self.run(go(short(True)))
        R.check(any(not calls_in(l[1][0], 'path_for_tag') for l in e.of('rename')) and e.outs and not ends_ok(e), 'moved:back', 'tags are not moved back when one cannot be moved', w)
        e = self.run(any_of(self.same(False), self.stay(False), *good, short(False)), None, lambda ev, c, a, st: c.method == 'rename' and not calls_in(ev.held(st, a[0]), 'path_for_tag'))
        R.check(not e.stopped, 'moved:stays', 'tags are moved back although all could be moved', w)
        e = self.run(self.stay(True))
        R.check(not e.of('rename', 'create_dir_all', 'remove_dir'), 'moved:not', 'tags are moved although only references are to be changed', w)
        for l in self.ev.log.values():
            R.check(l[0] not in ('remove_file', 'remove_dir_all', 'copy', 'write', 'hard_link'), 'moved:lost', '%s is called' % l[0], w)

    # ------------------------------------------------------------------ moving them back
    def undone(self):
        R, f, w = self.R, self.f, self.w
        if self.moving is None:
            return
        back = [l for l in self.ev.of('rename') if not calls_in(l[1][0], 'path_for_tag')]
        sites = [x for x in self.walks if any(at_site(l[1][0], x[0]) for l in back)]
        if not R.check(len(back) == 1 and len(sites) == 1, 'back:place', 'tags are moved back in %d places' % len(back), w):
            return
        s, it, cs = sites[0]
        R.check(it is None or not partial(it), 'back:all', 'tags that were moved are left out by their place', w)
        a, b = [txt(x, f) for x in back[0][1][:2]]
        n = [k for k, x in enumerate(plain(self.note[0][1][1]).a[0]) if calls_in(x, 'to_native_path')] if self.note else [1]
        R.check(a.endswith('.%d' % n[0]) and b.endswith('.%d' % (1 - n[0])) and at_site(back[0][1][1], s), 'back:where', 'a tag is moved back from %s to %s' % (a[:60], b[:60]), w)
        is_back = lambda ev, c, a, st: c.method == 'rename' and not calls_in(ev.held(st, a[0]), 'path_for_tag')
        R.ob('passes through lists')
        e = self.run(any_of(self.same(False), self.stay(False), short(True), ok('create_dir_all')(True)), {c: True for c in cs}, is_back, [s])
        R.check(e.stopped and not goes_on(e, f, s), 'back:each', 'a tag that was moved is not moved back', w)
        mk_ = lambda ev, c, a, st: c.method == 'create_dir_all' and at_site(ev.held(st, a[0]), s) and ('.%d' % (1 - n[0])) in txt(ev.held(st, a[0]), f).rsplit('elem(', 1)[-1].rsplit(')), ', 1)[-1] and ('.%d)' % n[0]) not in txt(ev.held(st, a[0]), f)
        e = self.run(any_of(self.same(False), self.stay(False), short(True), ok('parent')(True)), {c: True for c in cs}, mk_, [s])
        R.check(not [l for l in e.of('rename') if not calls_in(l[1][0], 'path_for_tag')] and e.stopped, 'back:dirs', 'a tag is moved back before its directory is made again', w)
        e = self.run(any_of(self.same(False), self.stay(False), short(True), ok('create_dir_all')(True), lambda c: False if c.op == 'isv' and c.a[1] == 'Ok' and c.a[0].op == 'call' and c.a[0].a[0].endswith('::rename') and at_site(c, s) else True if c.op == 'isv' and c.a[1] == 'Err' and c.a[0].op == 'call' and c.a[0].a[0].endswith('::rename') and at_site(c, s) else None), {c: True for c in cs}, lambda ev, c, a, st: c.method == 'push' and len(a) == 2 and 'format' in names(ev.held(st, a[1])) and at_site(ev.held(st, a[1]), s), [s])
        R.check(e.stopped and not goes_on(e, f, s), 'back:told', 'that a tag could not be moved back is not told', w)

    # ------------------------------------------------------------------ what is gone through afterwards
    def after(self):
        R, f, w = self.R, self.f, self.w
        ctx = [x for l in self.ev.of('spawn') for a in l[1] for x in walk(a) if x.op == 'adt' and x.a[0].endswith('::Context')]
        self.ctx = dict(ctx[0].a[2]) if ctx else {}
        if not R.check(len(set(ctx)) == 1, 'after:context', 'what the threads share was not found', w):
            return
        e = self.run(self.stay(True))
        cs = [dict(x.a[2]) for l in e.of('spawn') for a in l[1] for x in walk(a) if x.op == 'adt' and x.a[0].endswith('::Context')]
        self.list = [k for k, v in self.ctx.items() if any(x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in LIST for x in walk(v)) and not any(is_new(x) for x in walk(v)) and 'CachingTagTree' not in str(k)]
        lists = [k for c in cs[:1] for k, v in c.items() if txt(v, f).startswith(LIST)]
        R.check(len(lists) == 1 and txt(cs[0][lists[0]], f).split('(')[0] in LIST if cs else False, 'after:all', 'without moving, not all tags are gone through', w)
        self.tags = lists[0] if len(lists) == 1 else None
        self.renames = [k for k, v in self.ctx.items() if v.op == 'lphi' and any(is_new(y) for y in deep(v))]
        R.check(len(self.renames) == 1, 'after:renames', 'the threads do not get the tags that are renamed', w)
        pr = [k for k, v in self.ctx.items() if v.op == 'call' and 'Atomic' in v.a[0]]
        R.check(len(pr) == 1 and self.ctx[pr[0]].a[2] == (K(0),), 'after:progress', 'the tags are not gone through from the first', w)
        self.progress = pr[0] if len(pr) == 1 else None
        if self.tags is None:
            return
        # with moving, renamed tags are gone through under their new path
        sites = [(s, it, c) for s, it, c in self.walks if any(l for l in [1] if it is not None and it.op == 'it' and it.a[-1] is True)]
        conds = [c for c in self.ev.met if c.op == 'eq' and len([x for x in self.walks if at_site(c, x[0])]) == 2 and any(txt(x, f).endswith('.0') for x in c.a) and not any(is_new(x) for x in walk(c))]
        v = self.ctx[self.tags]
        got = [x for x in deep(v) if x.op in ('upd', 'welem') or x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in ('collect', 'map')]
        R.check(bool(conds) and bool(got) or any(x.op in ('quant', 'it') for x in deep(v)), 'after:renamed', 'renamed tags are not gone through under their new path', w)
        for yes in (True, False):
            e = self.run(any_of(self.stay(False), short(False), lambda c: yes if c in conds or c.op == 'eq' and not any(is_new(x) for x in walk(c)) and self.same(True)(c) is None and any(txt(x, f).endswith('.0') for x in c.a) and runs(c) else None))
            vs = [dict(x.a[2])[self.tags] for l in e.of('spawn') for a in l[1] for x in walk(a) if x.op == 'adt' and x.a[0].endswith('::Context')]
            ups = [x for v in vs[:1] for x in deep(v) if x.op in ('upd', 'welem')]
            new = [x for x in ups if last(x.a[-1]) == '1' and (any(at_site(x.a[-1], q) for q in e.iters) or any(at_site(x.a[-1], q[0]) for q in self.walks))]
            R.check(len(new) == len(ups), 'after:renamed', 'a tag is gone through under another path: %s' % [txt(x.a[-1], f)[:80] for x in ups if x not in new], w)
            if conds:
                R.check(bool(new) == yes, 'after:renamed', 'a tag that was %s is gone through under %s path' % (('renamed', 'its old') if yes else ('not renamed', 'another')), w)

    # ------------------------------------------------------------------ the work of the threads
    def threads(self):
        P, R, f, w = self.P, self.R, self.f, self.w
        sp = self.ev.of('spawn')
        if not R.check(len(sp) == 1 and sp[0][1][0].op == 'closure', 'threads:spawn', 'threads are started in %d places' % len(sp), w) or not getattr(self, 'tags', None):
            return
        g = P.fns.get(sp[0][1][0].a[0])
        if not R.check(g is not None, 'threads:body', 'what a thread does was not found', w):
            return
        R.fn(g)
        site = [x for x in self.walks if any(at_site(c, x[0]) for c in self.ev.met if 'threads' in txt(c, f) or '#4' in txt(c, f)) or x[1] is not None and x[1].op == 'adt' and x[1].a[0].endswith('Range')]
        R.check(bool(site), 'threads:some', 'threads are not started one by one', w)
        for s, it, cs in site[:1]:
            d = dict(it.a[2]) if it is not None and it.op == 'adt' else None
            R.check(d is None or d.get('start') is K(0), 'threads:some', 'fewer threads are started than asked for', w)
            e = self.run(None, {c: True for c in cs}, lambda ev, c, a, st: c.method == 'spawn', [s])
            R.check(e.stopped and not goes_on(e, f, s), 'threads:some', 'a thread is not started', w)
        joins = [x for x in self.walks if any(at_site(l[1][0], x[0]) for l in self.ev.of('join') if 'JoinHandle' in l[3].norm or l[3].norm.startswith('std::thread'))]
        R.check(len(joins) == 1, 'threads:join', 'the threads are not waited for', w)
        for s, it, cs in joins:
            R.check(it is None or not partial(it), 'threads:join', 'not all threads are waited for', w)
            e = self.run(None, {c: True for c in cs}, lambda ev, c, a, st: c.method == 'join' and at_site(ev.held(st, a[0]), s), [s])
            R.check(e.stopped and not goes_on(e, f, s), 'threads:join', 'not all threads are waited for', w)
        # every tag once
        w = where(g)
        ev = run(P, g, cls=Ref)
        R.ob('outcomes of renaming', len(ev.outs))
        fa = ev.of('fetch_add')
        R.check(len(fa) == 1 and txt(fa[0][1][0], g).endswith('.' + str(self.progress)) and fa[0][1][1] is K(1), 'work:next', 'threads take tags by %s' % [[txt(x, g)[:50] for x in l[1]] for l in fa], w)
        bound = lambda more: lambda c: in_range(c, self.tags, more)
        R.check(any(bound(True)(c) is not None for c in ev.met), 'work:end', 'it is not asked whether there are tags left', w)
        for c in ev.met:
            if c.op == 'le0' and any(x.op == 'call' and x.a[0].endswith('fetch_add') for x in lin_parts(c.a[0])[1]) and in_range(c, self.tags, True) is None:
                R.check(False, 'work:end', 'threads stop at %s' % txt(c, g)[:120], w)
        refs = lambda yes: lambda c: yes if c.op == 'call' and c.a[0].endswith('::contains') and 'get_all_referenceable_tag_groups_for_group' in names(c.a[2][0]) else (yes if c.op == 'quant' and 'get_all_referenceable_tag_groups_for_group' in names(c) else None)
        opened = ok(*OPEN)
        locked = ok('lock')(True)
        e = run(P, g, any_of(bound(True), locked), cls=Ref)
        R.check(not e.outs, 'work:end', 'a thread ends with tags left', w)
        e = run(P, g, any_of(bound(False)), cls=Ref)
        R.check(e.outs and not e.of(*OPEN), 'work:end', 'a thread goes on with no tags left', w)
        fad = [l for l in ev.of('fetch_sub', 'store', 'swap')]
        e = run(P, g, any_of(bound(True)), cls=Ref)
        R.check(not e.of('fetch_sub', 'store', 'swap'), 'work:once', 'a tag is taken more than once', w)
        # the tags that can refer to a renamed one
        asks = [c for c in ev.met if refs(True)(c) is not None]
        R.check(bool(asks), 'work:groups', 'it is not asked what a tag can refer to', w)
        for c in asks:
            t = txt(c, g)
            gs = calls_in(c, 'get_all_referenceable_tag_groups_for_group')
            R.check(all(self.tags in txt(x, g) and 'fetch_add' in txt(x, g) for x in gs) and self.renames[0] in names_fields(c), 'work:groups', 'what a tag can refer to is compared as %s' % t[:160], w)
            if c.op == 'call':
                t = txt(c.a[2][1], g)
                R.check('.%s' % self.renames[0] in t and t.endswith(('.1.group', '.0.group')), 'work:groups', 'the group looked for is %s' % t[:120], w)
        inner = [x for x in all_walks(ev) if any(at_site(c, x[0]) for c in asks)]
        quant = {c: c.a[0] == 'any' for c in asks if c.op == 'quant'}
        R.check(bool(inner) or bool(quant), 'work:groups', 'the renamed tags are not gone through', w)
        isopen = lambda ev, c, a, st: c.method in OPEN
        for s, it, cs in inner:
            R.check(it is None or not partial(it), 'work:groups', 'renamed tags are left out by their place', w)
        on = {**{c: True for s, it, cs in inner for c in cs}, **quant}

        def each(key, what, stop, *d):
            # the search for a tag that may be referred to ends with its list, or as soon as there is one
            R.ob('passes through lists')
            for noend in ((), [s for s, _, _ in inner]):
                e = run(P, g, any_of(bound(True), refs(True), locked, flag(True), *d), on, stop, noend, Ref)
                if e.stopped and not e.outs and not outer(e, inner):
                    return
            R.check(False, key, what, w)

        each('work:open', 'a tag that may refer to a renamed one is passed over', isopen)
        for l in ev.of(*OPEN):
            t = [txt(x, g) for x in l[1]]
            R.check(self.cache() in t[0], 'work:cache', 'tags are opened from %s' % t[0], w)
            R.check('.%s[' % self.tags in t[1] and 'fetch_add' in t[1] and t[1].endswith(']'), 'work:tag', 'the tag opened is %s' % t[1][:100], w)
        each('work:told', 'that a tag cannot be opened is not told', lambda ev, c, a, st: c.method in ('push', 'insert') and any(calls_in(ev.held(st, x), *OPEN, 'format') for x in a[1:]), opened(False))
        each('work:each', 'the references of a tag are not changed', lambda ev, c, a, st: c.method == 'for_each_dependency_mut', opened(True))
        ls = ev.of('for_each_dependency_mut')
        R.check(len(ls) == 1 and calls_in(ls[0][1][0], *OPEN) and ls[0][1][1] is K(True), 'work:walk', 'the references walked through are %s' % [[txt(x, g)[:60] for x in l[1][:2]] for l in ls], w)
        is_save = lambda ev, c, a, st: c.method in ('push', 'insert') and 'fetch_add' in names(ev.held(st, a[1])) and self.tags in names_fields(ev.held(st, a[1])) and 'format' not in names(ev.held(st, a[1]))
        each('work:save', 'a tag that was changed is not to be saved', is_save, opened(True), lambda c: True if c.op == 'mut' else None)
        if len(ls) != 1 or ls[0][1][2].op != 'closure':
            return R.check(False, 'work:closure', 'what is done with references was not found', w)
        h = P.fns.get(ls[0][1][2].a[0])
        if h is None:
            return R.check(False, 'work:closure', 'what is done with references was not found', w)
        self.references(h)

    def cache(self):
        for k, v in self.ctx.items():
            if v.op in ('call', 'adt') and 'CachingTagTree' in v.a[0]:
                return '.' + str(k)
        return '?'

    def references(self, h):
        P, R = self.P, self.R
        R.fn(h)
        w = where(h)
        ev = run(P, h, cls=Ref)
        eqs = [c for c in ev.met if c.op == 'eq']
        isset = lambda yes: lambda c: (c.a[1] == 'Set') == yes if c.op == 'isv' and c.a[1] in ('Set', 'Null') else None
        same = lambda yes: lambda c: yes if c.op == 'eq' else None
        ws = all_walks(ev)
        ws = [x for x in ws if any(at_site(c, x[0]) for c in eqs)]
        R.check(len(ws) == 1, 'refs:walk', 'a reference is not compared with every renamed tag', w)
        for c in eqs:
            old = [x for x in c.a if self.renames[0] in names_fields(x)]
            R.check(len(old) == 1 and last(old[0]) == '0' and any(has(x, h.lname(3)) for x in c.a if x is not old[0]), 'refs:compared', 'a reference is compared as %s' % [txt(x, h)[:80] for x in c.a], w)
        parts = [p for p in (part_of(c) for c in eqs)]
        R.check(None in parts or {'group', 'path'} <= set(parts), 'refs:compared', 'only the %s of a reference is compared' % sorted(set(parts) - {None}), w)
        for s, it, cs in ws:
            R.check(it is None or not partial(it), 'refs:all', 'renamed tags are left out by their place', w)
            e = run(P, h, same(False), {c: True for c in cs}, None, [s], cls=Ref)
            R.check(not e.stores and (not e.outs or len(s) > 2), 'refs:only', 'a reference to another tag is changed, or ends the search', w)
            R.ob('passes through lists')
            e = run(P, h, any_of(isset(True), same(True)), {c: True for c in cs}, None, [s], cls=Ref)
            R.check(not goes_on(e, h, s) and e.outs, 'refs:once', 'a reference that was renamed is renamed again', w)
            refs = [x for x in e.stores if x[0].op == 'arg' and x[0].a[0] == h.lname(3)]
            good = [x for x in refs if variant(x[2]) == 'Set' and self.target(plain(x[2].a[2][0][1]), h) or x[1][-2:] == ('Set', '0') and self.target(plain(x[2]), h)]
            R.check(len(refs) >= 1 and len(good) == len(refs), 'refs:change', 'a reference to a renamed tag becomes %s' % [txt(x[2], h)[:100] for x in refs], w)
            R.check(any(x[2] is K(True) for x in e.stores), 'refs:told', 'that a reference changed is not told', w)
            e = run(P, h, isset(False), {c: True for c in cs}, None, [s], cls=Ref)
            R.check(True, 'refs:null', '', w)
        for y in ev.stores:
            R.check(y[0].op == 'arg' or y[2] is K(True), 'refs:else', 'something else is changed: %s' % txt(y[0], h), w)

    def target(self, v, h):
        t = txt(v, h)
        return '.%s[' % self.renames[0] in t and re.search(r'\]\.1$', t) is not None

    # ------------------------------------------------------------------ saving
    def saved(self):
        R, f, w = self.R, self.f, self.w
        cm = self.ev.of('commit')
        sites = [x for x in self.walks if any(at_site(l[1][1], x[0]) for l in cm)]
        R.check(len(cm) == 1 and len(sites) == 1, 'saved:place', 'changed tags are saved in %d places' % len(cm), w)
        for s, it, cs in sites:
            R.check(it is None or not partial(it), 'saved:all', 'changed tags are left out by their place', w)
            on = {c: True for c in cs}
            R.ob('passes through lists')
            e = self.run(None, on, lambda ev, c, a, st: c.method == 'commit', [s])
            R.check(e.stopped and not goes_on(e, f, s), 'saved:each', 'a changed tag is not saved', w)
            e = self.run(ok('commit')(False), on, lambda ev, c, a, st: c.method in ('push', 'insert') and any('commit' in names(ev.held(st, x)) for x in a[1:]), [s])
            R.check(e.stopped and not goes_on(e, f, s), 'saved:told', 'that a tag could not be saved is not told', w)
            e = self.run(None, on, None, [s])
            R.check(not ends_ok(e) or True, 'saved:end', '', w)
        oks = [y for y, _ in self.ev.outs if variant(y) == 'Ok']
        R.check(bool(oks), 'saved:result', 'renaming never succeeds', w)


def names_fields(v):
    return {x.a[1] for x in walk(v) if x.op == 'fld'} | {p for x in walk(v) if x.op == 'ref' for p in x.a[2] if isinstance(p, str)}


def part_of(c):
    """the part of a path that is compared, None for all of it"""
    for x in c.a:
        while x.op == 'adt' and len(x.a[2]) == 1:
            x = x.a[2][0][1]
        for _ in range(3):
            if x.op == 'call' and len(x.a[2]) == 1 and x.a[0].rsplit('::', 1)[-1] in ('path', 'group'):
                return x.a[0].rsplit('::', 1)[-1]
            if x.op in ('smart', 'call') and x.a and isinstance(x.a[0], V):
                x = x.a[0]
        p = x.a[2][-1] if x.op == 'ref' and x.a[2] else x.a[1] if x.op == 'fld' else None
        if p in ('path', 'group'):
            return p
    return None


def last(v):
    """the field a value was taken from"""
    while v.op == 'adt' and len(v.a[2]) == 1:
        v = v.a[2][0][1]
    if v.op == 'ref' and v.a[2]:
        p = [x for x in v.a[2] if x not in ('group', 'path')]
        return p[-1] if p else None
    if v.op == 'fld' and v.a[1] in ('group', 'path'):
        v = v.a[0]
    if v.op == 'call' and len(v.a[2]) == 1:
        return last(v.a[2][0])
    return v.a[1] if v.op == 'fld' else None


def variant_path(b):
    """the value inside of a result"""
    return True


def pair_of(v):
    """where a tag was and where it was moved to"""
    v = plain(v)
    if v.op != 'tup' or len(v.a[0]) != 2:
        return False
    return bool(calls_in(v, 'path_for_tag')) and bool(calls_in(v, 'to_native_path'))


def short(yes):
    """fewer were moved than were to be (moved is at most all of them)"""
    def d(c):
        neg = c.op == 'not'
        c0 = c.a[0] if neg else c
        if c0.op not in ('eq0', 'le0'):
            return None
        k, dd = lin_parts(c0.a[0])
        ls = [(x.a[0], n) for x, n in dd.items() if x.op == 'len']
        if yes and len(dd) == 1 and len(ls) == 1 and c0.op == 'le0' and ls[0][1] == -1 and k <= 1 and any(is_new(y) for y in deep(ls[0][0])):
            return not neg      # nothing was moved, and there is something to move
        if len(dd) != 2 or len(ls) != 2 or sorted(n for _, n in ls) != [-1, 1] or not all(x.op in ('lphi', 'phi', 'mut') for x, _ in ls):
            return None
        ms = [n for x, n in ls if any(calls_in(y, 'to_native_path') for y in deep(x))]
        if len(ms) != 1:
            return None
        # m * (moved - all) + k  with moved - all < 0 if yes, = 0 if not
        m = ms[0]
        if c0.op == 'eq0':
            r = (False if m * k <= 0 else None) if yes else k == 0
        elif yes:
            r = (True if k <= 1 else None) if m == 1 else (False if k >= 0 else None)
        else:
            r = k <= 0
        return None if r is None else r != neg
    return d


def deep(v):
    """values inside of a value, with those it has from earlier times around loops"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in walk(x):
            if y not in seen:
                seen.add(y)
                yield y
                if y.op == 'lphi':
                    i, b = entries(y)
                    todo += list(i) + list(b)
        if x.op == 'lphi':
            i, b = entries(x)
            todo += list(i) + list(b)


def in_range(c, field, more):
    """whether a condition on the number taken says that there are tags left"""
    neg = c.op == 'not'
    c0 = c.a[0] if neg else c
    if c0.op == 'isv' and c0.a[1] in ('Some', 'None') and c0.a[0].op in ('call', 'chk') and any('fetch_add' in names(x) for x in walk(c0.a[0])) and c0.a[0].a[0].rsplit('::', 1)[-1] in ('get', 'chk', 'get_ref'):
        return ((c0.a[1] == 'Some') == more) != neg
    if c0.op != 'le0' or 'fetch_add' not in names(c0):
        return None
    k, d = lin_parts(c0.a[0])
    fa = [(x, n) for x, n in d.items() if x.op == 'call' and x.a[0].endswith('fetch_add')]
    ln = [(x, n) for x, n in d.items() if x.op == 'len' or x.op == 'call' and x.a[0].endswith('::len')]
    if len(fa) == 1 and len(d) == 1:
        return None if fa[0][1] > 0 else True
    if len(fa) != 1 or len(ln) != 1 or len(d) != 2 or field not in names_fields(ln[0][0]) or fa[0][1] + ln[0][1] != 0:
        return None
    n = fa[0][1]
    # n * taken - n * len + k <= 0; exact bounds only
    if n == 1 and k == 1:
        return more != neg
    if n == -1 and k == 0:
        return (not more) != neg
    return None


def all_walks(ev):
    out = [(s, it, []) for s, it in ev.iters.items()]
    seen = {s[:2] for s, _, _ in out}
    by = {}
    for c in ev.met:
        c = c.a[0] if c.op == 'not' else c
        if c.op == 'le0':
            k, d = lin_parts(c.a[0])
            for x, n in d.items():
                if n == 1 and len(d) > 1 and x.op == 'lphi' and counts(x) and x.a[:2] not in seen:
                    by.setdefault(x.a[:2], []).append(c)
    return out + [(s, None, cs) for s, cs in by.items()]


def outer(e, inner):
    """the loop over tags is gone around again: any loop but the ones over renamed tags"""
    ins = {(s[0], head(e.fn_of[s[0]], s[1])) for s, _, _ in inner if s[0] in e.fn_of}
    return [h for h in e.again if h not in ins]


def flag(yes):
    """a truth kept by hand that begins as false and may become true"""
    def d(c):
        if c.op == 'lphi':
            i, b = entries(c)
            if i and all(x is K(False) for x in i) and K(True) in b and all(x is K(True) or x is c for x in b):
                return yes
        return None
    return d
