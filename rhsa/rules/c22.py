"""C22: dependency queries see every reference of every tag, and nothing else."""
from ..layout import alts
from ..report import where
from ..truth import *
from ..val import *
from .c11 import words
from .c14 import names
from .c15 import Tree, deciding, txt, plain, outs, variant
from .. import defs
import re

RULE = ('The walks over the fields of a tag and over the tags of a tree are evaluated with each kind of field, tag and failure in turn: every pass through a list must hand on the very element it is at, '
        'no pass may be left out, and results must be made of what was found and of nothing else. The table of groups a tag can refer to is compared with the definitions.')
EXPLANATION = 'Abstract evaluation with trees and tags as unknown functions of their arguments; a pass that can go around without the step asked for is a violation. The generated table is read for every group and compared with the definitions.'
D = 'ringhopper::tag::dependency::'
PT = 'ringhopper_primitives::tag::'


class Walk(Tree):
    apart = ('for_each_field', 'for_each_field_mut', 'for_each_dependency', 'for_each_dependency_mut', 'get_tag_dependencies_for_block', 'get_all_referenceable_tag_groups_for_group',
             'recursively_get_dependencies_for_tag', 'iterate_through_all_tags', 'from_path')

    def on_store(self, fr, b, i, root, path, v, st, line):
        if root.op not in ('loc', 'cst'):
            self.stores.append((root, path, v, fr.fn, line))

    def pre(self, fr, st, c, args, b, line):
        if c.method in self.apart and any(a.op == 'closure' for a in args):
            # what is given to it may do anything to what it holds
            self.event(fr, b, st, 'call', c, args, line)
            r = self.opaque_call(fr, st, c, args, b, line)
            self.log[(c.method, fr.id, b)] = (c.method, [self.held(st, a) for a in args], dict(st.facts), c)
            return r
        return super().pre(fr, st, c, args, b, line)


def check(P, R):
    fields(P, R)
    references(P, R)
    table(P, R)
    closure(P, R)
    reverse(P, R)
    maps(P, R)
    groups(P, R)
    R.floor('passes through lists', 10)
    R.floor('groups compared with the definitions', 60)


def run(P, f, decide=None, assume=None, stop=None, noend=(), cls=Walk):
    ev = deciding(P, decide, assume, cls=cls)
    ev.noend.update(noend)
    ev.stop = stop
    v, st = ev.run(f)
    ev.outs = outcomes(v, st)
    return ev


def held(ev, st, a):
    return ev.held(st, a)


def calling(f, methods, *args, note=None):
    """a call of one of the methods with arguments that read as given (None: anything)"""
    def stop(ev, c, a, st):
        if c.method not in methods:
            return False
        a = [held(ev, st, x) for x in a]
        if note is not None:
            note.append([txt(x, f) for x in a])
        for i, want in enumerate(args):
            if want is None:
                continue
            t = txt(a[i], f) if i < len(a) else None
            if not (want(a[i], t) if callable(want) else t == want):
                return False
        return True
    return stop


def passes(P, R, f, sites, decide, stop, key, what, w, assume=None):
    """no pass of the walks can be completed without the call"""
    n = 0
    for s, it, cs in sites:
        n += 1
        R.ob('passes through lists')
        ev = run(P, f, decide, {**(assume or {}), **{c: True for c in cs}}, stop, [s])
        R.check(not (goes_on(ev, f, s)) and ev.stopped, key, what, w)
    return n


# ------------------------------------------------------------------------------------------------ fields
def fields(P, R):
    for name, mut in (('for_each_field', False), ('for_each_field_mut', True)):
        f = P.one(PT + name)
        g = P.one(PT + name + '::recursion')
        if not R.check(f is not None and g is not None, 'missing:' + name, 'the walk through fields was not found'):
            continue
        R.fn(f)
        R.fn(g)

        class Rec(Walk):
            def taken_apart(self, c):
                return c.fn is g or super().taken_apart(c)

        w = where(f)
        ev = run(P, f, cls=Rec)
        cs = [l for l in ev.log.values() if l[3].fn is g]
        want = ['#1', '#3' if mut else '#2'] + (['#2'] if mut else [])
        R.check(len(cs) == 1 and [txt(x, f) for x in cs[0][1]] == want, name + ':start', 'the walk starts with %s' % [[txt(x, f) for x in c[1]] for c in cs], w)
        e2 = run(P, f, stop=lambda ev, c, a, st: c.fn is g, cls=Rec)
        R.check(not e2.outs, name + ':start', 'the fields are not always walked through', w)
        # one level
        f, w = g, where(g)
        ev = run(P, f, cls=Rec)
        sites = walked(ev, f)
        field = 'get_field(#1, fields(#1)[%s])' if not mut else 'get_field_mut(#1, fields(#1)[%s])'
        of = lambda a, t: t is not None and runs_over(a, 'fields') and t.startswith(field.split('(')[0] + '(#1, fields(#1)[')
        R.check(len(sites) == 1, name + ':walk', 'the fields are not walked through once', w)
        for s, it, cs in sites:
            R.check(it is None or not partial(it), name + ':all', 'fields are left out by their place', w)
            e2 = run(P, f, None, {c: True for c in cs}, None, [s], Rec)
            R.check(not e2.outs, name + ':all', 'the walk ends before the last field', w)
        acc = lambda c: 'read_only' in names(c) or has(c, 'read_only')
        is_acc = lambda c: c.op == 'arg' and c.a[0] == f.lname(3) if mut else False
        third = [c for c in ev.met if mut and txt(c, f) == '#3']
        ros = [c for c in ev.met if mut and has(c, 'read_only')]
        call = calling(f, ('call_mut', 'call_once', 'call'), '#2', lambda a, t: a.op == 'tup' and len(a.a[0]) == 2 and of(a.a[0][1], txt(a.a[0][1], f)) and txt(a.a[0][0], f).startswith('get_metadata_for_field(#1, fields(#1)[') and
                       {x for x in walk(a.a[0][0]) if x.op in ('elem', 'elemix', 'lphi')} == {x for x in walk(a.a[0][1]) if x.op in ('elem', 'elemix', 'lphi')})
        plans = [('', {}, None)]
        if mut:
            R.check(bool(third) and bool(ros), name + ':readonly', 'it is not asked whether a field may be changed', w)
            plans = [('accessed', {c: True for c in third}, None), ('writable', {**{c: False for c in third}, **{c: False for c in ros}}, None)]
            e2 = run(P, f, lambda c: (c.a[1] == 'Some') if c.op == 'isv' and c.a[1] in ('Some', 'None') and c.a[0].op == 'call' and c.a[0].a[0].endswith('get_metadata_for_field') else None, {**{c: False for c in third}, **{c: True for c in ros}}, cls=Rec)
            R.check(not e2.of('call_mut', 'call', 'call_once') and not [l for l in e2.log.values() if l[3].fn is g], name + ':readonly', 'read-only fields are accessed', w)
        for label, assume, _ in plans:
            for s, it, cs in sites:
                R.ob('passes through lists')
                e2 = run(P, f, None, {**assume, **{c: True for c in cs}}, call, [s], Rec)
                R.check(not goes_on(e2, f, s) and e2.stopped, name + ':each', 'a field is passed by', w)
                # elements of lists
                arr = lambda yes: any_of(lambda c: (c.a[1] == 'Some') == yes if optional(c, 'as_array', 'as_array_mut') else None, lambda c: c.a[1] == 'Some' if optional(c, 'get_at_index', 'get_at_index_mut') else None)
                into = lambda what: lambda ev, c, a, st: c.fn is g and txt(held(ev, st, a[1]), f) == '#2' and (not mut or txt(held(ev, st, a[2]), f) == '#3') and what(held(ev, st, a[0]))
                item = lambda a: any(x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in ('get_at_index', 'get_at_index_mut') and (counts(x.a[2][1]) or x.a[2][1] is K(0)) for x in walk(a)) and txt(a, f).startswith(('get_at_index(as_array(%s' if not mut else 'get_at_index_mut(as_array_mut(%s') % field.split('%')[0])
                e3 = run(P, f, arr(True), {**assume, **{c: True for c in cs}}, None, [s], Rec)
                inner = [(q, i2) for q, i2 in e3.iters.items() if q != s and q[0] == 0] 
                by_hand = {x.a[:2] for c in e3.met for x in walk(c) if x.op == 'lphi' and x.a[0] == 0 and x.a[1] != head(f, s[1]) and counts(x)}
                R.check(len(inner) + len(by_hand - {q[:2] for q, _ in inner}) == 1, name + ':elements', 'the elements of a list are not walked through once', w)
                ats = e3.of('get_at_index', 'get_at_index_mut')
                R.check(bool(ats) and all(counts(l[1][1]) for l in ats), name + ':elements', 'the elements of a list taken are %s' % [txt(l[1][1], f) for l in ats], w)
                lens = {x for c in e3.met for x in walk(c) if x.op == 'call' and x.a[0].rsplit('::', 1)[-1] == 'len' and 'as_array' in txt(x, f)}
                R.check(len(lens) >= 1, name + ':length', 'it is not asked how many elements a list has', w)
                more = {}
                for c in e3.met:
                    c = c.a[0] if c.op == 'not' else c
                    if c.op == 'le0' and any(x in lens for x in walk(c)):
                        more[c] = True
                for q, i2 in inner:
                    R.check(not partial(i2) and full(i2, lens), name + ':elements', 'elements of a list are left out', w)
                    R.ob('passes through lists')
                    e4 = run(P, f, arr(True), {**assume, **{c: True for c in cs}}, into(item), [s, q], Rec)
                    R.check(not goes_on(e4, f, s) and (len(q) > 2 or not goes_on(e4, f, q)) and e4.stopped, name + ':element', 'an element of a list is passed by', w)
                for q in by_hand - {q[:2] for q, _ in inner}:
                    R.ob('passes through lists')
                    R.check(all(exact_more(c, lens) for c in more), name + ':elements', 'elements of a list are left out', w)
                    e4 = run(P, f, arr(True), {**assume, **{c: True for c in cs}, **more}, into(item), [s], Rec)
                    R.check(not goes_on(e4, f, s) and e4.stopped, name + ':element', 'an element of a list is passed by', w)
                # fields of fields
                R.ob('passes through lists')
                kids = {x for c in e2.met for x in walk(c) if x.op == 'len' and 'fields' in names(x) and 'get_field' in txt(x, f)}
                kids |= {x for c in run(P, f, arr(False), {**assume, **{c: True for c in cs}}, None, [s], Rec).met for x in walk(c) if x.op == 'len' and 'fields' in names(x) and 'get_field' in txt(x, f)}
                some = {le(K(1), k): True for k in kids}
                some.update({eq(k, K(0)): False for k in kids})
                e5 = run(P, f, arr(False), {**assume, **{c: True for c in cs}, **some}, into(lambda a: of(a, txt(a, f))), [s], Rec)
                R.check(not goes_on(e5, f, s) and e5.stopped, name + ':nested', 'the fields of a field are not walked through', w)


def runs_over(a, what):
    return any(x.op in ('elem', 'elemix', 'elemn', 'lphi') for x in walk(a)) and what in names(a)


def optional(c, *methods):
    """whether one of the methods gave something"""
    return c.op == 'isv' and c.a[1] in ('Some', 'None') and any(x.op in ('call', 'chk') and x.a[0].rsplit('::', 1)[-1] in methods for x in [c.a[0]])


def full(it, lens):
    """0 to the length of the list"""
    d = dict(it.a[2]) if it.op == 'adt' else {}
    return it.op == 'adt' and it.a[0].endswith('Range') and d.get('start') is K(0) and d.get('end') in lens


def exact_more(c, lens):
    k, d = lin_parts(c.a[0])
    return k == 1 and list(d.values()) == [-1] or k == 1 and len(d) == 2 and sorted(d.values()) == [-1, 1] and [x for x, n in d.items() if n == -1][0] in lens or k in (0,) and len(d) <= 2


# ------------------------------------------------------------------------------------------------ references
def references(P, R):
    for name, mut in (('for_each_dependency', False), ('for_each_dependency_mut', True)):
        f = P.one(D + name)
        if not R.check(f is not None, 'missing:' + name, 'the walk through references was not found'):
            continue
        R.fn(f)
        each = 'for_each_field_mut' if mut else 'for_each_field'
        want = ['#1', '#2'] if mut else ['#1']
        g = handed(P, R, f, each, want, name)
        if g is None:
            continue
        R.fn(g)
        w = where(g)
        downs = ('downcast_mut', 'downcast_ref', 'get_mut', 'get_ref', 'is')
        ev = run(P, g)
        ds = [l for l in ev.log.values() if l[0] in downs]
        R.check(bool(ds) and all(l[3].args and l[3].args[-1].endswith('TagReference') for l in ds), name + ':type', 'references are told by being %s' % [l[3].args for l in ds], w)
        isref = lambda yes: lambda c: (c.a[1] == 'Some') == yes if c.op == 'isv' and c.a[1] in ('Some', 'None') and has(c, 'downcast_mut' if mut else 'downcast_ref') else yes if c.op == 'call' and c.a[0].endswith('::is') else None
        down = 'downcast_mut(as_any_mut(#3)' if mut else 'downcast_ref(as_any(#3)'

        def give(a, t):
            if a.op != 'tup' or len(a.a[0]) != (2 if mut else 1):
                return False
            it = a.a[0][-1]
            t = [txt(x, g) for x in a.a[0]]
            return t[-1].startswith(down) and (not mut or 'allowed_references' in t[0] and t[0].startswith('#2'))
        e2 = run(P, g, isref(True), stop=calling(g, ('call_mut', 'call', 'call_once'), lambda a, t: has(a, 'a0') or '.0' in t or t.startswith('#1'), give))
        R.ob('passes through lists')
        R.check(not e2.outs and e2.stopped, name + ':each', 'a reference is passed by, or what is handed on is not the reference', w)
        e3 = run(P, g, isref(False))
        R.check(not e3.of('call_mut', 'call', 'call_once'), name + ':only', 'something that is not a reference is handed on', w)
    f = P.one(D + 'get_tag_dependencies_for_block')
    if R.check(f is not None, 'missing:block', 'the dependencies of a structure were not found'):
        R.fn(f)
        g = handed(P, R, f, 'for_each_dependency', ['#1'], 'block')
        if g is not None:
            R.fn(g)
            w = where(g)
            isset = lambda yes: lambda c: (c.a[1] == 'Set') == yes if c.op == 'isv' and c.a[1] in ('Set', 'Null') else None
            e2 = run(P, g, isset(True), stop=calling(g, ('insert', 'push', 'push_back', 'replace'), captured, '#2.Set.0'))
            R.ob('passes through lists')
            R.check(not e2.outs and e2.stopped, 'block:each', 'a reference that is set is not among the dependencies', w)
            e3 = run(P, g, isset(False))
            R.check(not e3.of('insert', 'push', 'push_back', 'replace', 'remove', 'clear', 'retain'), 'block:only', 'an unset reference changes the dependencies', w)
            R.check(all(txt(l[1][1], g) == '#2.Set.0' for l in run(P, g).of('insert', 'push') if len(l[1]) > 1) and not run(P, g).of('remove', 'clear', 'retain', 'take'), 'block:only', 'something other than the reference is among the dependencies', w)
        ev = run(P, f)
        for y, fs in ev.outs:
            R.check(any(x.op == 'mut' for x in walk(y)) and not [x for x in walk(y) if x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in ('filter', 'take', 'skip')], 'block:result', 'the dependencies found are not what is returned: %s' % txt(y, f)[:100], where(f))


def captured(a, t):
    return True


def handed(P, R, f, each, want, key):
    """the closure handed to a walk, which is always taken"""
    w = where(f)
    ev = run(P, f)
    ls = [l for l in ev.of(each)]
    if not R.check(len(ls) == 1 and [txt(x, f) for x in ls[0][1][:len(want)]] == want, key + ':walk', 'what is walked through is %s' % [[txt(x, f)[:60] for x in l[1]] for l in ls], w):
        return None
    e2 = run(P, f, stop=lambda ev, c, a, st: c.method == each)
    R.check(not e2.outs, key + ':always', 'there is not always a walk', w)
    cl = ls[0][1][-1]
    g = P.fns.get(cl.a[0]) if cl.op == 'closure' else None
    R.check(g is not None, key + ':closure', 'what is done on the walk was not found', w)
    return g


# ------------------------------------------------------------------------------------------------ the table of groups
def table(P, R):
    fs = [g for p, g in P.fns.items() if p.endswith('::get_all_referenceable_tag_groups_for_group')]
    f = fs[0] if len(fs) == 1 else None
    if not R.check(f is not None, 'missing:table', 'the table of groups a tag can refer to was not found'):
        return
    R.fn(f)
    dd = defs.Defs()
    TG = 'ringhopper_primitives::primitive::group::TagGroup'
    byname = {}
    fn = P.fns.get(TG + '::as_str')
    from .c12 import const_str, cref
    from ..ev import Ev
    for v in P.adts[TG]['variants']:
        ev = Ev(P)
        r, st = ev.run(fn, args=[cref(adt(TG, v[0], []))])
        byname[const_str(ev, st, r)] = v[0]
    for name, struct in sorted(groups_of(dd)):
        R.ob('groups compared with the definitions')
        want, most = ({byname[g] for g in refs_of(dd, struct, x)} for x in (False, True))
        ev = Ev(P)
        r, st = ev.run(f, args=[adt(TG, byname[name], [])])
        got = elements(ev, st, r)
        R.check(got is not None and want <= got <= most, 'table:' + name, 'tags of group %s can refer to %s, but the table says %s' % (name, sorted(want - (got or set()))[:4] or 'nothing else', sorted((got or set()) - most)[:4]), where(f))


def groups_of(dd):
    return [(n, o['struct']) for n, o in dd.groups.items()]


def refs_of(dd, struct, excluded, seen=None):
    seen = set() if seen is None else seen
    if struct in seen or struct not in dd.structs:
        return set()
    seen.add(struct)
    out = set()
    for x in dd.fields(struct):
        if x.flags['exclude'] and not excluded:
            continue
        if x.kind == 'TagReference':
            out |= dd.allowed(x)
        elif x.inner:
            out |= refs_of(dd, x.inner, excluded, seen)
    return out


def elements(ev, st, r):
    for _ in range(4):
        if r is not None and r.op == 'ref':
            r = ev.content(st, r)
    if r is None or r.op != 'arr' and r.op != 'array':
        xs = [x for x in r.a if isinstance(x, tuple)] if r is not None else []
        return {x.a[1] for x in xs[0]} if xs and all(x.op == 'adt' for x in xs[0]) else set() if xs and not xs[0] else None
    return {x.a[1] for x in r.a[0]}


# ------------------------------------------------------------------------------------------------ everything a tag needs
def closure(P, R):
    f = P.one(D + 'recursively_get_dependencies_for_tag')
    if not R.check(f is not None, 'missing:closure', 'the search for all dependencies was not found'):
        return
    R.fn(f)
    w = where(f)
    ev = run(P, f)
    o = ev.outs
    R.ob('outcomes of queries', len(o))
    popped = [l for l in ev.of('pop', 'pop_front', 'pop_back')]
    R.check(len(popped) == 1, 'closure:list', 'tags still to be looked at are taken from %d places' % len(popped), w)
    more = lambda yes: lambda c: (c.a[1] == 'Some') == yes if c.op == 'isv' and c.a[1] in ('Some', 'None') and c.a[0].op == 'call' and c.a[0].a[0].rsplit('::', 1)[-1] in ('pop', 'pop_front', 'pop_back') else None
    # it only ends well when nothing is left
    R.check(not ends_ok(run(P, f, more(True))), 'closure:end', 'the search ends with tags still to be looked at', w)
    # the first is the tag itself
    e0 = run(P, f, None)
    first = [x for l in popped for x in walk(l[1][0]) if x.op in ('tup',)]
    inits = [x for c in e0.met if more(True)(c) for x in walk(c) if x.op == 'tup' and len(x.a[0]) == 2]
    pushes = [l for l in e0.of('push', 'push_back') if l[1][1].op == 'tup' and txt(l[1][1].a[0][0], f) == '#1']
    R.check(any(txt(x.a[0][0], f) in ('#1', '*#1') and variant(x.a[0][1]) == 'None' for x in inits) or bool(pushes), 'closure:start', 'the search does not begin with the tag itself', w)
    leaf = lambda yes: lambda c: of_length(c, yes)
    # what is taken from the list
    tag = lambda t: t.startswith(('pop(', 'pop_front(', 'pop_back(')) and t.endswith(').0')

    def comb(*fns):
        def d(c):
            for g in fns:
                r = g(c)
                if r is not None:
                    return r
            return None
        return d
    isopen = lambda yes: lambda c: (c.a[1] == 'Ok') == yes if c.op == 'isv' and c.a[1] in ('Ok', 'Err') and c.a[0].op in ('call', 'chk') and c.a[0].a[0].rsplit('::', 1)[-1] in ('open_tag_shared', 'open_tag_copy') else None
    there = lambda yes: lambda c: yes if c.op == 'call' and c.a[0].rsplit('::', 1)[-1] == 'contains' and txt(c.a[2][0], f) == '#2' else None
    broken = lambda yes: lambda c: yes if txt(c, f) == '#3' else None
    again = lambda ev: any(h[0] == 0 for h in ev.again)
    depends = [(s, it, cs) for s, it, cs in inner_walks(ev, f) if any('get_tag_dependencies_for_block' in names(c) and at_site(c, s) for c in list(ev.met) + cs)]
    # tags that cannot have any dependencies
    e1 = run(P, f, comb(leaf(True), more(True)))
    R.check(not e1.of('open_tag_shared', 'open_tag_copy') and e1.of('contains'), 'closure:leaf', 'a tag without dependencies is not just looked for', w)
    R.check(not e1.of('push'), 'closure:leaf', 'a tag without dependencies adds tags to look at', w)
    e1 = run(P, f, comb(leaf(True), there(False), broken(False), more(True)))
    R.check(not again(e1) and e1.outs, 'closure:missing', 'a dependency that is missing is passed over', w)
    errors(R, e1, f, w)
    e1 = run(P, f, comb(leaf(True), there(False), broken(True), more(True)))
    R.check(not e1.outs and again(e1) and not e1.of('insert'), 'closure:broken', 'a missing dependency that may be broken ends the search or counts as a tag', w)
    e1 = run(P, f, comb(leaf(True), there(True), more(True)), stop=calling(f, ('insert',), None, lambda a, t: tag(t), lambda a, t: t in ('new()', 'default()')))
    R.check(not again(e1) and not e1.outs and e1.stopped, 'closure:leaf', 'a tag without dependencies is not among the result', w)
    # tags that are opened
    opened = [l for l in ev.of('open_tag_shared', 'open_tag_copy')]
    R.check(bool(opened) and all(txt(l[1][0], f) == '#2' and tag(txt(l[1][1], f)) for l in opened), 'closure:open', 'what is opened is %s' % [txt(l[1][1], f)[:80] for l in opened], w)
    e2 = run(P, f, comb(leaf(False), isopen(False), broken(False), more(True)))
    R.check(not again(e2) and e2.outs, 'closure:missing', 'a tag that cannot be opened is passed over', w)
    errors(R, e2, f, w)
    e2 = run(P, f, comb(leaf(False), isopen(False), broken(True), more(True)))
    R.check(not e2.outs and again(e2) and not e2.of('insert'), 'closure:broken', 'a tag that cannot be opened, and may be broken, ends the search or counts as a tag', w)
    deps = 'get_tag_dependencies_for_block('
    ins = calling(f, ('insert',), None, lambda a, t: tag(t), lambda a, t: t.startswith(deps) and {'open_tag_shared', 'open_tag_copy'} & names(a))
    e3 = run(P, f, comb(leaf(False), isopen(True), more(True)), stop=ins)
    R.check(not again_outer(e3, f, depends) and not ends_ok(e3) and e3.stopped, 'closure:insert', 'a tag is not given with its dependencies', w)
    # every dependency is put on the list, unless it is there or done
    R.check(len(depends) == 1, 'closure:each', 'the dependencies of a tag are not walked through once', w)
    known = lambda c: done(c) is not None
    for s, it, cs in depends:
        R.ob('passes through lists')
        R.check(it is None or not partial(it), 'closure:each', 'dependencies are left out by their place', w)
        note = []
        push = calling(f, ('push', 'push_back', 'push_front', 'insert'), None, lambda a, t: a.op == 'tup' and txt(a.a[0][0], f).startswith(deps) and runs_over(a.a[0][0], 'get_tag_dependencies_for_block') and variant(a.a[0][1]) == 'Some' and tag(txt(plain(a.a[0][1]).a[2][0][1], f)))
        e4 = run(P, f, comb(leaf(False), isopen(True), more(True), lambda c: False if done(c) else None), {c: True for c in cs}, push, [s])
        R.check(not goes_on(e4, f, s) and e4.stopped, 'closure:push', 'a dependency that is neither done nor listed is not looked at', w)
        asked = [c for c in ev.met if done(c)]
        for c in asked:
            R.check(runs_over(c, 'get_tag_dependencies_for_block'), 'closure:done', 'it is asked whether something else is done: %s' % txt(c, f)[:120], w)
        R.check(any(done(c) == 'result' for c in asked), 'closure:ends', 'tags that were looked at are looked at again', w)
    for y, fs in o:
        if variant(y) == 'Ok':
            t = y.a[2][0][1]
            R.check(t.op == 'lphi' or txt(t, f).startswith('new('), 'closure:result', 'what is returned is %s' % txt(t, f)[:100], w)


def at_site(c, s):
    """mentions the element a walk is at"""
    return any(x.op in ('elem', 'elemix', 'elemn') and any(y == s or isinstance(y, tuple) and y and y[0] == s for y in x.a) or x.op == 'lphi' and x.a[:2] == s for x in walk(c))


def of_length(c, none):
    """truth of a condition on how many groups a tag can refer to: none, or some"""
    if c.op not in ('eq0', 'le0') or 'get_all_referenceable_tag_groups_for_group' not in names(c):
        return None
    k, d = lin_parts(c.a[0])
    if len(d) != 1:
        return None
    n = next(iter(d.values()))
    if none:
        return k == 0 if c.op == 'eq0' else k <= 0
    if c.op == 'eq0':
        return False if k % n or -k // n < 1 else None
    return True if n <= 0 and k + n <= 0 else False if n > 0 and k + n > 0 else None


def whole_element(x):
    return x.op in ('idx', 'at') and 'get_tag_dependencies_for_block' in names(x) or x.op == 'ref' and bool(x.a[2]) and isinstance(x.a[2][-1], V)


def done(c):
    """whether a condition asks if a tag was looked at, or is to be"""
    if c.op in ('haskey', 'key') or c.op == 'call' and c.a[0].rsplit('::', 1)[-1] in ('contains_key',) or c.op == 'isv' and c.a[0].op == 'call' and c.a[0].a[0].rsplit('::', 1)[-1] in ('get', 'get_mut'):
        return 'result'
    if c.op in ('quant',) or c.op == 'call' and c.a[0].rsplit('::', 1)[-1] in ('any', 'contains') and 'get_tag_dependencies_for_block' in names(c):
        return 'pending'
    if c.op == 'eq' and any(whole_element(x) for x in c.a) and 'get_tag_dependencies_for_block' in names(c) and runs_over(c, 'get_tag_dependencies_for_block'):
        return 'pending'
    return None


def inner_walks(ev, f):
    """walks of any depth in f itself"""
    out = [(s, it, []) for s, it in ev.iters.items() if len(s) == 2 and s[0] == 0]
    seen = {s for s, _, _ in out}
    by = {}
    for c in ev.met:
        c = c.a[0] if c.op == 'not' else c
        if c.op == 'le0':
            k, d = lin_parts(c.a[0])
            for x, n in d.items():
                if n == 1 and len(d) > 1 and x.op == 'lphi' and x.a[0] == 0 and counts(x) and x.a[:2] not in seen:
                    by.setdefault(x.a[:2], []).append(c)
    return out + [(s, None, cs) for s, cs in by.items()]


def again_outer(ev, f, inner):
    hs = {head(f, s[1]) for s, _, _ in inner}
    return any(h[0] == 0 and h[1] not in hs for h in ev.again)


def ends_ok(ev):
    return [y for y, _ in ev.outs if not (y.op == 'adt' and y.a[1] == 'Err')]


def errors(R, ev, f, w):
    for y, fs in ev.outs:
        R.ob('outcomes of queries')
        for z, gs in alts(y):
            if z.op != 'adt' or z.a[1] != 'Err':
                R.check(False, 'closure:missing', 'a missing tag is no error', w)
                continue
            for e, hs in alts(z.a[2][0][1]):
                if e.op == 'adt' and e.a[1] == 'BrokenDependency':
                    ts = [txt(x, f) for _, x in e.a[2]]
                    R.check(len(ts) == 2 and 'pop' in ts[0] and '.1' in ts[0], 'closure:blame', 'a missing dependency is reported as %s' % ts, w)
                elif e.op == 'adt' and e.a[1] == 'TagNotFound':
                    t = txt(e.a[2][0][1], f)
                    R.check('pop' in t and t.endswith('.0'), 'closure:blame', 'a missing tag is reported as %s' % t[:80], w)
                else:
                    R.check('open_tag_shared' in names(e) or 'open_tag_copy' in names(e), 'closure:blame', 'an error that is not that of the tag: %s' % txt(e, f)[:80], w)


# ------------------------------------------------------------------------------------------------ what needs a tag
class Listing(Walk):
    """what a walk over all tags gives is any tag"""
    apart = Walk.apart + ('next',)

    def pre(self, fr, st, c, args, b, line):
        if c.method == 'into_iter' and args and 'iterate_through_all_tags' in names(args[0]):
            return args[0], st
        if c.method == 'next' and args and fr.id == 0 and 'iterate_through_all_tags' in names(self.held(st, args[0])):
            self.log[(c.method, fr.id, b)] = (c.method, [self.held(st, a) for a in args], dict(st.facts), c)
            return mk('call', c.norm, tuple(c.args), (mk('call', 'iterate_through_all_tags', (), (), None),), (fr.id, b)), st
        if c.method == 'next':
            return CallEv.pre(self, fr, st, c, args, b, line) if not self.taken_apart(c) else None
        return super().pre(fr, st, c, args, b, line)


def any_of(*fns):
    def d(c):
        for g in fns:
            r = g(c)
            if r is not None:
                return r
        return None
    return d


def reverse(P, R):
    f = P.one(D + 'get_reverse_dependencies_for_tag')
    if not R.check(f is not None, 'missing:reverse', 'the search for what depends on a tag was not found'):
        return
    R.fn(f)
    w = where(f)
    nxt = lambda yes: lambda c: (c.a[1] == 'Some') == yes if c.op == 'isv' and c.a[1] in ('Some', 'None') and c.a[0].op == 'call' and c.a[0].a[0].endswith('::next') else None
    table = lambda yes: lambda c: yes if c.op == 'call' and c.a[0].endswith('::contains') and 'get_all_referenceable_tag_groups_for_group' in names(c) else None
    inside = lambda yes: lambda c: yes if c.op == 'call' and c.a[0].endswith('::contains') and 'get_tag_dependencies_for_block' in names(c) else None
    isopen = lambda yes: lambda c: (c.a[1] == 'Ok') == yes if c.op == 'isv' and c.a[1] in ('Ok', 'Err') and c.a[0].op in ('call', 'chk') and c.a[0].a[0].rsplit('::', 1)[-1] in ('open_tag_shared', 'open_tag_copy') else None
    ev = run(P, f, cls=Listing)
    R.ob('outcomes of queries', len(ev.outs))
    its = ev.of('iterate_through_all_tags')
    R.check(len(its) == 1 and txt(its[0][1][0], f) == '#1' if False else len(its) == 1 and txt(its[0][1][0], f) == '#2' and variant(its[0][1][1]) == 'None', 'reverse:all', 'not all tags of the tree are looked at', w)
    for c in ev.met:
        if table(True)(c) or inside(True)(c):
            t = txt(c.a[2][-1], f)
            R.check(t == ('#1.group' if table(True)(c) else '#1'), 'reverse:ask', 'it is asked for %s' % t, w)
    R.check(ev.of('next') and not any(partial(a) or a.op == 'it' for l in ev.of('next') for a in l[1]), 'reverse:all', 'tags are left out by their place', w)
    e1 = run(P, f, nxt(True), cls=Listing)
    R.check(not ends_ok(e1), 'reverse:end', 'the search ends before the last tag', w)
    e1 = run(P, f, any_of(nxt(True), table(False)), cls=Listing)
    R.check(not e1.outs and not e1.of('insert'), 'reverse:none', 'a tag that cannot refer to the tag ends the search or is given', w)
    tagis = lambda t: 'iterate_through_all_tags' in t and t.endswith(')') and '.' not in t.rsplit(')', 1)[-1]
    note = []
    e2 = run(P, f, any_of(nxt(True), table(True), isopen(True)), stop=lambda ev, c, a, st: c.method == 'contains' and 'get_tag_dependencies_for_block' in names(held(ev, st, a[0])), cls=Listing)
    R.check(not e2.again_outer() and not e2.outs and e2.stopped if hasattr(e2, 'again_outer') else not again(e2) and not e2.outs and e2.stopped, 'reverse:each', 'a tag that may refer to the tag is passed by', w)
    R.ob('passes through lists')
    opened = [txt(l[1][1], f) for l in ev.of('open_tag_shared', 'open_tag_copy')]
    R.check(bool(opened) and all('iterate_through_all_tags' in names(l[1][1]) and txt(l[1][0], f) == '#2' for l in ev.of('open_tag_shared', 'open_tag_copy')), 'reverse:open', 'what is opened is %s' % opened, w)
    e3 = run(P, f, any_of(nxt(True), table(True), isopen(True), inside(True)), stop=lambda ev, c, a, st: c.method == 'insert' and 'iterate_through_all_tags' in names(held(ev, st, a[1])), cls=Listing)
    R.check(not again(e3) and not e3.outs and e3.stopped, 'reverse:insert', 'a tag that refers to the tag is not given', w)
    e4 = run(P, f, any_of(nxt(True), table(True), isopen(True), inside(False)), cls=Listing)
    R.check(not e4.of('insert') and not e4.outs, 'reverse:only', 'a tag that does not refer to the tag is given, or ends the search', w)
    e5 = run(P, f, any_of(nxt(True), table(True), isopen(False)), cls=Listing)
    R.check(not again(e5) and e5.outs and not ends_ok(e5), 'reverse:broken', 'a tag that cannot be opened is passed over', w)


def again(ev):
    return any(h[0] == 0 for h in ev.again)


# ------------------------------------------------------------------------------------------------ everything a map needs
def maps(P, R):
    f = P.one(D + 'recursively_get_dependencies_for_map')
    if not R.check(f is not None, 'missing:map', 'the search for everything a map needs was not found'):
        return
    R.fn(f)
    w = where(f)
    REC = 'recursively_get_dependencies_for_tag'
    rec = lambda yes: lambda c: (c.a[1] == 'Ok') == yes if c.op == 'isv' and c.a[1] in ('Ok', 'Err') and c.a[0].op in ('call', 'chk') and c.a[0].a[0].endswith(REC) else None
    kinds = {'Singleplayer': 'singleplayer', 'Multiplayer': 'multiplayer', 'UserInterface': 'user_interface'}
    ev = run(P, f)
    R.ob('outcomes of queries', len(ev.outs))
    for l in ev.of(REC):
        R.check(txt(l[1][1], f) == '#2' and l[1][2] is K(False), 'map:search', 'what is searched is %s' % [txt(x, f)[:60] for x in l[1]], w)
    for y, fs in ev.outs:
        if variant(y) == 'Err':
            t = names(y)
            R.check(bool(t & {REC, 'open_tag_shared'}), 'map:error', 'an error that is not that of a tag: %s' % txt(y, f)[:100], w)
    # the scenario
    for what, stop in (('the scenario is not among what the map needs', calling(f, ('insert',), None, '#1')),
                       ('what the scenario needs is not among what the map needs', lambda ev, c, a, st: c.method == 'extend' and any(x.op == 'call' and x.a[0].endswith(REC) and txt(x.a[2][0], f) == '#1' for x in walk(held(ev, st, a[1]))) and whole(held(ev, st, a[1])))):
        e1 = run(P, f, stop=stop)
        R.check(not ends_ok(e1) and e1.stopped, 'map:scenario', what, w)
    e1 = run(P, f, rec(False))
    R.check(not ends_ok(e1), 'map:missing', 'a map that misses tags is taken for complete', w)
    types = {c for c in ev.met if c.op == 'isv' and c.a[1] in kinds}
    R.check({c.a[1] for c in types} == set(kinds), 'map:type', 'the type of the scenario is not told', w)
    for kind, field in kinds.items():
        # every list of required tags is gone through
        lists = set()
        e2 = run(P, f, lambda c: c.a[1] == kind if c.op == 'isv' and c.a[1] in kinds else None)
        for s, it in e2.iters.items():
            if it is not None and len(s) == 2 and s[0] == 0:
                R.check(not partial(it), 'map:required', 'required tags are left out by their place', w)
                lists |= {x.a[1] for x in walk(it) if x.op == 'fld' and x.a[1] in ('all',) + tuple(kinds.values()) and has(x, 'required_tags')}
        for s, it, cs in inner_walks(e2, f):
            if it is None:
                lists |= {x.a[1] for c in cs for x in walk(c) if x.op == 'fld' and x.a[1] in ('all',) + tuple(kinds.values()) and has(x, 'required_tags')}
        R.ob('passes through lists')
        R.check(lists == {'all', field}, 'map:required', 'a %s map is taken to need the tags %s' % (kind, sorted(lists)), w)
        sites = [x for x in inner_walks(e2, f) if any(at_site(a, x[0]) for l in e2.of(REC) for a in l[1])]
        R.check(len(sites) >= 1, 'map:required', 'required tags are not gone through', w)
        for s, it, cs in sites:
            for what, stop in (('a required tag is not among what the map needs', lambda ev, c, a, st: c.method == 'insert' and at_site(held(ev, st, a[1]), s) and 'from_path' in names(held(ev, st, a[1])) and REC not in names(held(ev, st, a[1]))),
                               ('what a required tag needs is not among what the map needs', lambda ev, c, a, st: c.method == 'extend' and REC in names(held(ev, st, a[1])) and at_site(held(ev, st, a[1]), s) and whole(held(ev, st, a[1])))):
                R.ob('passes through lists')
                e3 = run(P, f, lambda c: c.a[1] == kind if c.op == 'isv' and c.a[1] in kinds else None, {c: True for c in cs}, stop, [s])
                R.check(not goes_on(e3, f, s) and e3.stopped, 'map:each', what, w)
    for y, fs in ev.outs:
        if variant(y) != 'Err':
            t = y.a[2][0][1]
            R.check(not names(t) & {'filter', 'take', 'skip', 'difference', 'intersection'}, 'map:result', 'what is returned is %s' % txt(t, f)[:100], w)


def whole(v):
    """all values of the table of dependencies"""
    n = names(v) | {x.a[0] for x in walk(v) if x.op == 'it'}
    return not n & {'filter', 'take', 'skip', 'step_by', 'filter_map', 'take_while', 'skip_while', 'map_while'} and bool(n & {'into_values', 'values', 'flatten', 'flat_map', 'into_keys', 'keys'})


# ------------------------------------------------------------------------------------------------ other groups
def groups(P, R):
    f = P.one(D + 'refactor_groups_for_block')
    if not R.check(f is not None, 'missing:groups', 'the change of groups of references was not found'):
        return
    R.fn(f)
    g = handed(P, R, f, 'for_each_dependency_mut', ['#1', '#5'], 'groups')
    ev = run(P, f)
    for y, fs in ev.outs:
        R.check(y.op == 'mut', 'groups:said', 'whether anything was changed is %s' % txt(y, f)[:60], where(f))
    if g is None:
        return
    R.fn(g)
    w = where(g)
    cap = captures(P, f, g)
    want = {v: k for k, v in cap.items()}
    ok = {'from': 2, 'to': 3, 'tag_tree': 4}
    allowed = lambda yes: lambda c: yes if c.op == 'call' and c.a[0].endswith('::contains') and txt(c.a[2][0], g) == '#2' else None
    there = lambda yes: lambda c: yes if c.op == 'call' and c.a[0].endswith('::contains') and txt(c.a[2][0], g) != '#2' else None
    same = lambda yes: lambda c: yes if c.op == 'eq' else None
    isset = lambda yes: lambda c: (c.a[1] == 'Set') == yes if c.op == 'isv' and c.a[1] in ('Set', 'Null') else None
    ev = run(P, g)
    R.ob('outcomes of queries', max(1, len(ev.outs)))
    TO, FROM, TREE = (cap.get(i) for i in (3, 2, 4))
    R.check(None not in (TO, FROM, TREE), 'groups:given', 'the groups and tree given are not used', w)
    if None in (TO, FROM, TREE):
        return
    pl = lambda v: txt(v, g).replace('*', '')
    for c in ev.met:
        if allowed(True)(c):
            R.check(pl(c.a[2][1]) == TO, 'groups:allowed', 'it is asked whether %s is allowed' % txt(c.a[2][1], g), w)
        elif there(True)(c):
            t = [x for x in walk(c.a[2][1]) if x.op == 'upd']
            R.check(pl(c.a[2][0]) == TREE and (len(t) == 1 and pl(t[0].a[2] if len(t[0].a) > 2 else t[0].a[-1]) == TO or c.a[2][1].op == 'adt' and pl(ev.project(c.a[2][1], 'group')) == TO), 'groups:there', 'it is asked whether %s is there' % txt(c.a[2][1], g)[:100], w)
        elif same(True)(c):
            ts = {pl(x) for x in c.a}
            R.check(FROM in ts and any('group' in t for t in ts), 'groups:from', 'what is compared is %s' % sorted(ts), w)
    changed = lambda e: [s for s in e.stores if s[0] is not None and txt(s[0], g) in ('#3',) or 'dependency' in str(s[0])]
    yes = [('not allowed', any_of(allowed(False))), ('of another group', any_of(same(False))), ('not there', any_of(isset(True), there(False)))]
    for what, d in yes:
        e2 = run(P, g, d)
        R.check(not effects(e2, g), 'groups:no:' + what, 'a reference whose change is %s is changed' % what, w)
    for s in (True, False):
        e3 = run(P, g, any_of(isset(s), allowed(True), same(True), there(True)))
        es = effects(e3, g)
        R.check(bool(es) and all(pl(v) == TO or v.op == 'adt' and v.a[1] == 'Null' and pl(v.a[2][0][1]) == TO or v.op == 'k' for v in es), 'groups:change', 'a reference to be changed becomes %s' % [txt(v, g)[:60] for v in es], w)
        R.check(any(v is K(True) for v in es), 'groups:said', 'a change is not told', w)


def captures(P, f, g):
    """number of an argument of f -> text of what the closure sees it as"""
    out = {}
    for l in run(P, f).log.values():
        for a in l[1]:
            if a.op == 'closure' and a.a[0] == g.p:
                for k, u in enumerate(a.a[1]):
                    n = None
                    if u.op == 'ref' and u.a[1].op == 'loc' and not u.a[2]:
                        n = u.a[1].a[1] if u.a[1].a[1] in range(1, f.argc + 1) else u.a[1].a[0]
                    else:
                        m = re.fullmatch(r'#(\d+)', txt(u, f))
                        n = int(m.group(1)) if m else None
                    out[n] = 'a0.%d' % k
    return out


def effects(ev, g):
    return [s[2] for s in ev.stores]
