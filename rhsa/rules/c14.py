"""C14: a tag path made of text is legal, normalised and relative, and no code makes one any other way."""
from ..layout import alts
from ..report import where
from ..truth import *
from ..val import *
from .c11 import words

RULE = ('The constructor of tag paths is evaluated once for every ASCII character and for characters beyond ASCII, and once for every directory name that matters; each must be refused, or kept, in the form the '
        'rules for tag paths say. No other function may make a tag path from its parts, or change its text.')
EXPLANATION = 'Abstract evaluation of the constructor with one character or component known at a time and everything else unknown; a search of the whole program for other ways to form a path; and evaluation of its accessors.'
TP = 'ringhopper_primitives::primitive::path::TagPath'
TR = 'ringhopper_primitives::primitive::path::TagReference'
SEP = 92
FORBIDDEN = set(map(ord, ':*?"<>|')) | set(range(32)) | {127}
RESERVED = sorted(['aux', 'con', 'nul', 'prn'] + [p + str(i) for p in ('com', 'lpt') for i in range(10)])
FINE = ['weapons', 'con0', 'com', 'lpt', 'com10', 'a.b', 'xnul', 'auxi', '.a', 'a b']
BAD = RESERVED + ['.', '..', 'a.', 'con.', '...', 'x..']


def lower(c):
    return c + 32 if 65 <= c <= 90 else c


CHAR = {
    'is_separator': lambda c: c == 47,
    'is_ascii_control': lambda c: c < 32 or c == 127,
    'is_control': lambda c: c < 32 or 127 <= c < 160,
    'is_ascii_uppercase': lambda c: 65 <= c <= 90,
    'is_ascii_lowercase': lambda c: 97 <= c <= 122,
    'is_ascii_alphabetic': lambda c: 65 <= c <= 90 or 97 <= c <= 122,
    'is_ascii_digit': lambda c: 48 <= c <= 57,
    'is_ascii_alphanumeric': lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57,
    'is_ascii': lambda c: c < 128,
    'is_ascii_whitespace': lambda c: c in (9, 10, 12, 13, 32),
    'is_ascii_graphic': lambda c: 33 <= c <= 126,
    'is_ascii_punctuation': lambda c: 33 <= c <= 126 and not chr(c).isalnum(),
    'to_ascii_lowercase': lower,
    'to_ascii_uppercase': lambda c: c - 32 if 97 <= c <= 122 else c,
}
STR = {
    'ends_with': lambda s, p: s.endswith(p), 'starts_with': lambda s, p: s.startswith(p), 'contains': lambda s, p: p in s,
    'eq': lambda s, p: s == p, 'ne': lambda s, p: s != p, 'is_empty': lambda s: s == '', 'len': lambda s: len(s), 'eq_ignore_ascii_case': lambda s, p: s.lower() == p.lower(),
}


class New(CallEv):
    """every character of the text is `code`; every component of a split text is `comp`"""

    def __init__(self, P, code=None, comp=None, assume=None, how=True):
        super().__init__(P, assume)
        self.code, self.comp = code, comp
        self.nonempty = (code is not None or comp is not None) and how
        self.split_of = []

    def element(self, it):
        if it.op != 'call':
            return None
        n = it.a[0].rsplit('::', 1)[-1]
        if n == 'chars' and self.code is not None:
            return K(self.code)
        if n in ('bytes',) and self.code is not None and self.code < 128:
            return K(self.code)
        if n == 'char_indices' and self.code is not None:
            return tup(mk('elemn', it, 0), K(self.code))
        if n in ('split', 'split_terminator', 'rsplit'):
            self.split_of.append(it)
            if self.comp is not None:
                return K(self.comp)
        return None

    def known(self, st, x):
        for _ in range(3):
            if x.op == 'ref':
                y = self.content(st, x)
                if y is x:
                    break
                x = y
            else:
                break
        if x.op == 'at':
            return self.known(st, x.a[0])
        return x.a[1] if x.op == 'k' and not isinstance(x.a[1], bool) else None

    def pre(self, fr, st, c, args, b, line):
        m = c.method
        if c.fn is None and args:
            if m in CHAR:
                k = self.known(st, args[0])
                if isinstance(k, int):
                    return K(CHAR[m](k)), st
            if m in STR:
                k = [self.known(st, a) for a in args]
                if isinstance(k[0], str) and all(isinstance(x, (str, int)) for x in k[1:]) and len(k) == STR[m].__code__.co_argcount:
                    return K(STR[m](*[chr(x) if isinstance(x, int) else x for x in k])), st
            if m in ('binary_search', 'contains') and len(args) == 2:
                a = self.content(st, args[0]) if args[0].op == 'ref' else args[0]
                k = self.known(st, args[1])
                if a.op == 'arr' and isinstance(k, str):
                    es = [self.known(st, x) for x in a.a[0]]
                    if all(isinstance(x, str) for x in es):
                        if m == 'contains':
                            return K(k in es), st
                        i = bsearch(es, k)
                        return (ok(K(i)) if i is not None else err(mk('nowhere', a, K(k)))), st
        return super().pre(fr, st, c, args, b, line)


def bsearch(es, k):
    """as the standard library searches, also where the list is not in order"""
    size, base = len(es), 0
    if not size:
        return None
    while size > 1:
        half = size // 2
        mid = base + half
        if not es[mid].encode() > k.encode():
            base = mid
        size -= half
    return base if es[base] == k else None


def check(P, R):
    f = P.one(TP + '::new')
    if not R.check(f is not None, 'missing:new', 'the constructor of tag paths was not found'):
        return
    new(P, R, f)
    alone(P, R, f)
    parts(P, R)
    R.floor('characters', 128)
    R.floor('directory names', 30)


def text(e, fr=None):
    """what a push or collect adds"""
    return e.args[-1]


def new(P, R, f):
    R.fn(f)
    w = where(f)
    ev = New(P)
    v, st = ev.run(f)
    oks = ends(v, st, 'Ok')
    if not R.check(bool(oks), 'never', 'no tag path can be made', w):
        return
    finals = set()
    for y, fs in oks:
        p = ev.project(ev.project(y, 'Ok.0'), 'path')
        finals.add(base(p))
        R.check(words(ev.project(ev.project(y, 'Ok.0'), 'group'), f) == '#2', 'group', 'the group of a tag path is not the one given', w)
    # a character at a time
    for code in list(range(128)) + [0xC9, 0xE9, 0x3A3, 0x4E00, 0x1F600]:
        R.ob('characters')
        e2 = New(P, code=code, how='some' if code in FORBIDDEN else True)
        v, st = e2.run(f)
        oks = ends(v, st, 'Ok')
        what = repr(chr(code)) if 32 < code < 127 else 'character %d' % code
        if code in FORBIDDEN:
            R.check(not oks, 'char:%d' % code, '%s is let into tag paths' % what, w)
            continue
        if not R.check(bool(oks), 'char:%d' % code, '%s is not let into tag paths' % what, w):
            continue
        want = SEP if code in (47, 92) else lower(code)
        got = {put(x) for x in kept(e2, oks)}
        R.check(got == {want}, 'kept:%d' % code, '%s is kept as %s in tag paths' % (what, ' or '.join(sorted(repr(chr(g)) if isinstance(g, int) else str(g) for g in got)) or 'nothing'), w)
        # a separator after a separator is dropped; nothing else is
        cs = [c for c in e2.met if any(x.op == 'lphi' for x in walk(c)) and not any(n in names(c) for n in ('starts_with',)) and c.op == 'eq0' or c.op == 'call' and 'ends_with' in names(c)]
        cs = [c for c in cs if not any(x.op == 'k' and isinstance(x.a[1], str) for x in walk(c))]
        if want != SEP:
            continue
        seen = False
        for c in cs:
            e3 = New(P, code=code, assume={c: True})
            # the first time nothing has come before
            e3.run(f)
            later = [e for e in e3.calls('push') if any(x.op == 'lphi' for x in walk(e.cont if getattr(e, 'cont', None) is not None else e.args[0]))]
            if not later:
                seen = True
                prev(R, ev, e2, c, f, w)
        R.check(seen, 'double', 'separators that follow each other are all kept', w)
    # the text as a whole
    rooted = False
    for c in list(ev.met):
        if c.op == 'call' and c.a[0].endswith('::starts_with') and c.a[2] and base(c.a[2][0]) in finals and c.a[2][1] is K(SEP):
            v, st = New(P, assume={c: True}).run(f)
            rooted = rooted or not ends(v, st, 'Ok')
    if not rooted:
        # refused some other way: no text that begins with a separator may come through
        rooted = any(c.op == 'isv' and 'strip_prefix' in names(c) and not ends(*New(P, assume={c: c.a[1] == 'Some'}).run(f), 'Ok') for c in list(ev.met))
    R.check(rooted, 'root', 'a path that begins at the root is let through', w)
    # a directory name at a time
    for comp in FINE + BAD:
        R.ob('directory names')
        e2 = New(P, comp=comp, how='some' if comp in BAD else True)
        v, st = e2.run(f)
        oks = ends(v, st, 'Ok')
        if comp in BAD:
            R.check(not oks, 'name:' + comp, 'the directory name %r is let into tag paths' % comp, w)
        else:
            R.check(bool(oks), 'name:' + comp, 'the directory name %r is not let into tag paths' % comp, w)
        R.check(not any(partial(it) for it in e2.iters.values()), 'partial', 'a part of the text is not looked at', w)
        for it in e2.split_of:
            R.check(base(it.a[2][0]) in {base(e2.project(e2.project(y, 'Ok.0'), 'path')) for y, _ in oks} | finals and it.a[2][1] is K(SEP), 'names', 'the directory names looked at are those of %s' % show(it, 4), w)


def names(v):
    return {x.a[0].rsplit('::', 1)[-1] for x in walk(v) if x.op == 'call'}


def base(v):
    while True:
        if v.op in ('at', 'cast') or v.op == 'call' and v.a[0].rsplit('::', 1)[-1] in ('to_owned', 'to_string', 'clone', 'into', 'from', 'as_str', 'deref') and len(v.a[2]) == 1:
            v = v.a[0] if v.op in ('at', 'cast') else v.a[2][0]
            continue
        return v


def kept(ev, oks):
    out = [e.args[-1] for e in ev.calls('push')]
    for y, _ in oks:
        p = ev.project(ev.project(y, 'Ok.0'), 'path')
        out += [x.a[1] for x in walk(p) if x.op == 'collected']
    return out


def put(v):
    vs = {y.a[1] if y.op == 'k' else show(y, 4) for y, _ in alts(v)}
    return vs.pop() if len(vs) == 1 else 'one of ' + '/'.join(map(str, vs))


def prev(R, ev, e2, c, f, w):
    """the condition is on the character kept before"""
    from ..loops import entries
    for x in walk(c):
        if x.op != 'lphi':
            continue
        i, b = entries(x)
        vals = [y.a[1] for z in i for y, _ in alts(z) if y.op == 'k']
        R.check(SEP not in vals, 'double:first', 'a separator is dropped where nothing has come before it', w)
        back = {y.a[1] if y.op == 'k' else y for z in b for y, _ in alts(z) if y is not x}
        R.check(back <= {SEP} or not all(isinstance(y, int) for y in back), 'double:last', 'a separator is dropped after something that is not one', w)
        R.check(all(y == SEP for y in back if isinstance(y, int)), 'double:last', 'the last character kept is remembered as something else', w)


def alone(P, R, f):
    """no other code makes a path of parts or changes its text"""
    n = 0
    for p, g in sorted(P.fns.items()):
        if g.p == f.p or p.startswith(f.p + '::'):
            continue
        n += 1
        derived = p == '<%s as core::clone::Clone>::clone' % TP
        for b in g.bb:
            for s in b[0]:
                if len(s) < 2 or not isinstance(s[1], list) or not s[1]:
                    continue
                r = s[1]
                line = s[2] if len(s) > 2 else g.line
                if r[0] == 'agg' and r[1][0] == 'adt' and r[1][1] == TP and not derived:
                    R.viol('made:' + p, 'a tag path is put together without the checks of the constructor', '%s:%s in %s' % (g.file, line, p))
                for place, mut in ((s[0], True), (r[2] if r[0] == 'ref' and r[1] is True else r[-1] if r[0] in ('addr', 'rawptr') else None, True)):
                    if isinstance(place, list) and len(place) > 1 and any(isinstance(e, list) and len(e) == 3 and e[0] == '.' and e[2] == 'path' for e in place[1:]) and TP in g.lty(place[0]) and g.crate == 'ringhopper_primitives':
                        e = next(i for i, e in enumerate(place) if isinstance(e, list) and len(e) == 3 and e[2] == 'path')
                        R.viol('changed:' + p, 'the text of a tag path is changed without the checks of the constructor', '%s:%s in %s' % (g.file, line, p))
    R.ob('functions searched for other ways to make a path', n)


def said(v, f):
    """text of a value, with the parts of a split text as slices"""
    def go(v):
        if v.op == 'call':
            n = v.a[0].rsplit('::', 1)[-1]
            if n in ('to_owned', 'to_string', 'clone', 'as_str', 'deref', 'as_ref', 'borrow', 'new_display', 'from', 'into') and len(v.a[2]) == 1:
                return go(v.a[2][0])
        return v
    t = words(go(v), f)
    return t


class Part(New):
    apart = ('split_str_path', 'new', 'from_str', 'cmp', 'partial_cmp', 'eq')

    def taken_apart(self, c):
        if c.method in ('new', 'cmp', 'eq'):
            return c.fn is not None and c.fn.p.startswith((TP, '<' + TP))
        return c.method in ('split_str_path', 'from_str')


def cut(ev, v, f):
    """(text, from, to) of a piece of a text; to is None for the end"""
    st = None
    if v.op == 'fld' and v.a[1] in ('0', '1') and v.a[0].op == 'call' and v.a[0].a[0].endswith('::split_at'):
        t, n = v.a[0].a[2]
        return (said(t, f), '0', words(n, f)) if v.a[1] == '0' else (said(t, f), words(n, f), None)
    if v.op == 'ref' and v.a[2] and isinstance(v.a[2][-1], V) and v.a[2][-1].op == 'slc':
        lo, hi = v.a[2][-1].a[:2]
        whole = mk('ref', v.a[0], v.a[1], v.a[2][:-1])
        i = cut(ev, v.a[1] if len(v.a[2]) == 1 else whole, f)
        if i and i[1] != '0' and i[2] is None:
            return i[0], plus(words(lo, f), i[1]), None if hi.op == 'len' else words(hi, f)
        return said(whole, f), words(lo, f), None if hi.op == 'len' else words(hi, f)
    if v.op == 'slice':
        return said(v.a[0], f), words(v.a[1], f), None if v.a[2].op == 'len' else words(v.a[2], f)
    return None


def plus(a, b):
    return '%s + %s' % (b, a) if not b.isdigit() else str(int(a) + int(b)) if a.isdigit() else '%s + %s' % (a, b)


def some(P, R, name, cls=Part, **k):
    f = P.one(name)
    if not R.check(f is not None, 'missing:' + name.rsplit('::', 1)[-1], '%s was not found' % name):
        return None, None, []
    R.fn(f)
    ev = cls(P, **k)
    v, st = ev.run(f)
    outs = outcomes(v, st)
    R.ob('outcomes of functions on paths', len(outs))
    R.check(bool(outs), 'ends:' + f.p, '%s never ends' % f.n, where(f))
    return f, ev, outs


def parts(P, R):
    # splitting
    f, ev, outs = some(P, R, TP + '::split_str_path')
    if f:
        w = where(f)
        n = 0
        for y, fs in outs:
            if y.op == 'adt' and y.a[1] == 'None':
                R.check(not any(c.op == 'isv' and c.a[1] == 'Ok' and t and 'from_str' in names(c) and c.a[0].op == 'call' for c, t in fs.items()), 'split:none', 'a text with a known extension is not split', w)
                continue
            n += 1
            y = ev.project(y, 'Some.0')
            a, g = ev.project(y, '0'), ev.project(y, '1')
            at = 'rfind(#1, 46)'
            R.check(cut(ev, a, f) == ('#1', '0', at) or said(a, f) == 'rsplit_once(#1, 46).0', 'split:path', 'a text is split into the path %s' % said(a, f)[:120], w)
            gs = [x for x in walk(g) if x.op == 'call' and x.a[0].endswith('::from_str')]
            R.check(len(gs) == 1 and (cut(ev, gs[0].a[2][0], f) == ('#1', at + ' + 1', None) or said(gs[0].a[2][0], f) == 'rsplit_once(#1, 46).1') and said(g, f) == said(gs[0], f), 'split:group', 'the group of a path is taken from %s' % said(g, f)[:120], w)
        R.check(n > 0, 'split:never', 'no text is ever split', w)
    f, ev, outs = some(P, R, TP + '::from_path')
    if f:
        w = where(f)
        n = 0
        for y, fs in outs:
            if y.op == 'adt' and y.a[1] == 'Err':
                R.check(not any(c.op == 'isv' and c.a[0].op == 'call' and c.a[0].a[0].endswith('split_str_path') and (c.a[1] == 'Some') == t for c, t in fs.items()), 'from:err', 'a path that can be split is refused without a look at it', w)
                continue
            n += 1
            R.check(said(y, f) == 'new(split_str_path(#1).0, split_str_path(#1).1)', 'from', 'a path with an extension becomes %s' % said(y, f)[:160], w)
        R.check(n > 0, 'from:never', 'no path with an extension is ever accepted', w)
    # accessors
    for n, want in {'path': {'#1.path'}, 'group': {'#1.group'}}.items():
        f, ev, outs = some(P, R, TP + '::' + n)
        for y, fs in outs:
            R.check(said(y, f) in want, n, '%s() of a tag path gives %s' % (n, said(y, f)[:100]), where(f))
    f, ev, outs = some(P, R, TP + '::base_name')
    for y, fs in outs:
        found = [t == (c.a[1] in ('Some',)) for c, t in fs.items() if c.op == 'isv' and names(c) & {'rfind', 'rsplit_once'}]
        at = 'rfind(#1.path, 92)'
        if said(y, f) == '#1.path':
            R.check(found and not any(found), 'base:none', 'the whole path is given as its base name though it has directories', where(f))
        else:
            R.check(cut(ev, y, f) == ('#1.path', at + ' + 1', None) or said(y, f) == 'rsplit_once(#1.path, 92).1', 'base', 'the base name is taken to be %s' % said(y, f)[:120], where(f))
    # forms
    whole = None
    for n, sep in (('to_internal_path', None), ('to_native_path', 47), ('to_zip_path', 47)):
        f, ev, outs = some(P, R, TP + '::' + n)
        for y, fs in outs:
            y = base(y)
            if sep is not None:
                ok = y.op == 'call' and y.a[0].endswith('::replace') and y.a[2][1] is K(SEP) and New(P).known(None, y.a[2][2]) in ('/', 47)
                R.check(ok, n, '%s gives %s' % (n, said(y, f)[:120]), where(f))
                if not ok:
                    continue
                y = base(y.a[2][0])
            t, args = formatted(ev, y)
            R.check(t == b'\xc0\x01.\xc0\x00' and [said(a, f) for a in args] == ['#1.path', '#1.group'], n + ':form', '%s is made of %s as %s' % (n, [said(a, f) for a in args], t), where(f))
    f = P.one('<%s as core::fmt::Display>::fmt' % TP)
    if f:
        R.fn(f)
        for code in (92, 97, 45, 0x4E00, 46, 47):
            e2 = New(P, code=code)
            v, st = e2.run(f)
            R.ob('characters printed')
            evs = e2.calls('write_char')
            got = {put(e.args[-1]) for e in evs if 'elem' in {x.op for x in walk(e.args[-1])} or e.bb in loop_blocks(f)} if evs else None
            if got is not None:
                want = 47 if code == 92 else code
                R.check(got == {want}, 'print:%d' % code, '%r is printed as %s' % (chr(code), sorted(chr(g) if isinstance(g, int) else g for g in got)), where(f))
    # identity
    f, ev, outs = some(P, R, '<%s as core::cmp::PartialEq>::eq' % TP)
    if f:
        # equal exactly if path and group are
        eqs = [c for c in ev.met if c.op == 'eq'] + [y for y, _ in outs if y.op == 'eq']
        need = {}
        for c in eqs:
            a = {words(x, f) for x in c.a}
            for n in ('path', 'group'):
                if a == {'#1.' + n, '#2.' + n} or a == {'*self.' + n, '*other.' + n}:
                    need[n] = c
        R.check(set(need) == {'path', 'group'}, 'eq', 'paths are told apart by %s' % sorted(need), where(f))
        for n, c in need.items():
            for t in (False, True):
                v, st = Part(P, assume={**{x: True for x in need.values()}, c: t}).run(f)
                got = {truth(y, need, {c: t}) for y, _ in outcomes(v, st)}
                R.check(got == {t}, 'eq:%s:%s' % (n, t), 'paths whose %s %s compare as %s' % (n, 'are equal' if t else 'differ', got), where(f))
    # references
    null = [mk('isv', V0, 'Null') for V0 in ()]
    for n, want in {'is_null': {'Null': 'True', 'Set': 'False'}, 'is_set': {'Null': 'False', 'Set': 'True'}, 'group': {'Null': '#1.Null.0', 'Set': '#1.Set.0.group'}, 'path': {'Null': 'None', 'Set': 'Some{#1.Set.0}'}}.items():
        f, ev, outs = some(P, R, TR + '::' + n)
        if not f:
            continue
        for y, fs in outs:
            vs = {c.a[1] if t else {'Null': 'Set', 'Set': 'Null'}[c.a[1]] for c, t in fs.items() if c.op == 'isv' and c.a[1] in ('Null', 'Set')}
            for x in vs or {'Null', 'Set'}:
                R.check(said(y, f) == want[x], 'ref:%s:%s' % (n, x), '%s() of a reference that is %s gives %s' % (n, x, said(y, f)[:100]), where(f))


def truth(v, need, fix):
    if v.op == 'k':
        return v.a[1]
    if v in need.values():
        return fix.get(v, True)
    return show(v, 4)


def loop_blocks(f):
    from ..arith import reaches
    return {b for b in range(len(f.bb)) if reaches(f, b, b)}


def formatted(ev, y):
    """(template, what is put in) of a formatted text"""
    if y.op == 'call' and y.a[0].endswith('::format') and y.a[2]:
        y = y.a[2][0]
    if y.op == 'call' and y.a[0].endswith('::new') and len(y.a[2]) == 2:
        t, a = y.a[2]
        t = ev.content(ev.last, t) if t.op == 'ref' and getattr(ev, 'last', None) else t
        a = ev.content(ev.last, a) if a.op == 'ref' and getattr(ev, 'last', None) else a
        tb = next((x.a[1] for x in walk(t) if x.op == 'k' and isinstance(x.a[1], bytes)), None)
        tb = tb if tb is not None else next((x.a[0] for x in walk(t) if x.op == 'cst' and isinstance(x.a[0], bytes)), None)
        return tb, list(a.a[0]) if a.op == 'arr' else [a]
    return None, []
