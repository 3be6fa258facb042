"""C23: a command does its work once for each tag it was asked to work on, and tells how each of them went."""
from ..layout import alts
from ..report import where
from ..truth import *
from ..val import *
from .c14 import names
from .c15 import txt, plain, variant
from .c21 import at_site, calls_in, ok, all_walks
from .c22 import Walk, any_of, ends_ok
from .c15 import deciding
import re

RULE = ('What runs a command on tags is evaluated for a path, for a filter with one job, for a filter with several jobs, and for each result of the work on a tag: the work must be called for each tag found, with that tag, '
        'the counters must change as the result says, all threads must be waited for, and what is reported must be made of the counters.')
EXPLANATION = 'Abstract evaluation with the work as an unknown function; a pass through the tags that can go around without the work is a violation.'
N = 'invader::threading::'
WORK = '<indirect>'


class Jobs(Walk):
    apart = ('is_filter', 'cleanup_extension', 'from_path', 'get_jobs', 'get_all_tags_with_filter', 'get_all_tags', 'pop_front', 'pop_back', 'pop') + ('success_fmt_ln', 'error_fmt_ln', 'warning_fmt_ln', 'neutral_fmt_ln', 'success_ln', 'error_ln', 'warning_ln', 'neutral_ln', 'flush')

    def taken_apart(self, c):
        return super().taken_apart(c) or c.method == 'new' and c.norm.endswith(('TagPath::new', 'TagFilter::new'))

    def pre(self, fr, st, c, args, b, line):
        if c.method in ('new', 'default', 'from') and ('::Atomic' in c.norm or c.method != 'new' and any(str(x).startswith('core::sync::atomic::Atomic') for x in c.args[:1])):
            # each counter is its own
            self.log[(c.method, fr.id, b)] = (c.method, list(args), dict(st.facts), c)
            return mk('call', 'Counter', (), tuple(args), (fr.id, b)), st
        return super().pre(fr, st, c, args, b, line)


def run(P, f, decide=None, assume=None, stop=None, noend=()):
    ev = deciding(P, decide, assume, cls=Jobs)
    ev.noend.update(noend)
    ev.stop = stop
    v, st = ev.run(f)
    ev.outs = outcomes(v, st)
    return ev


def counter(ev, f, v, up=None):
    """the counter a value is or holds, or None"""
    cs = {x for x in walk(v) if x.op == 'call' and x.a[0] == 'Counter'}
    if len(cs) == 1:
        return next(iter(cs))
    if up is not None and not cs:
        for x in walk(v):
            for k, u in up.items():
                if x is u[0]:
                    return u[1]
    return None


RESULTS = {'Success': ('Ok', 'Success'), 'Skipped': ('Ok', 'Skipped'), 'Ignored': ('Ok', 'Ignored'), 'Failed': ('Err', None)}


def result(kind):
    r, k = RESULTS[kind]

    def d(c):
        if c.op != 'isv' or not any(x.op == 'call' and x.a[0] == WORK for x in walk(c.a[0])):
            return None
        if c.a[1] in ('Ok', 'Err'):
            return c.a[1] == r
        if c.a[1] in ('Success', 'Skipped', 'Ignored'):
            return c.a[1] == k
        return None
    return d


def is_work(ev, c, a, st):
    return c.norm == WORK or c.method == WORK


def check(P, R):
    f = P.one(N + 'do_with_threads')
    if not R.check(f is not None, 'missing:work', 'what runs commands on tags was not found'):
        return
    R.fn(f)
    w = where(f)
    isf = lambda yes: lambda c: yes if c.op == 'call' and c.a[0].endswith('::is_filter') else None
    one = lambda yes: lambda c: jobs(c, yes)
    ev = run(P, f)
    R.ob('outcomes of commands', len(ev.outs))
    asked = [c for c in ev.met if isf(True)(c)]
    R.check(bool(asked) and all(txt(c.a[2][0], f) == '#3' for c in asked), 'filter:asked', 'it is not asked whether the text is a filter', w)
    # one path
    e = run(P, f, isf(False), stop=None)
    ws = e.of(WORK)
    R.check(not e.of('get_all_tags_with_filter', 'spawn') and ws, 'path:one', 'a single path is looked for among tags', w)
    group = lambda yes: lambda c: (c.a[1] == 'Some') == yes if c.op == 'isv' and c.a[1] in ('Some', 'None') and txt(c.a[0], f) == '#4' else None
    for yes in (True, False):
        e = run(P, f, any_of(isf(False), group(yes)))
        got = [txt(work_path(l), f) for l in e.of(WORK)]
        want = ('new(cleanup_extension(#3, #4.Some.0), #4.Some.0).Ok.0', 'new(cleanup_extension(#3, #4), #4)') if yes else ('from_path(#3).Ok.0', 'from_path(#3)')
        R.check(len(got) == 1 and got[0] in want, 'path:is', 'the tag worked on for a path %s group is %s' % ('with a' if yes else 'without a', got), w)
        R.ob('results of the work')
        e = run(P, f, any_of(isf(False), group(yes), ok('new', 'from_path')(True)), stop=is_work)
        R.check(e.stopped and not e.outs, 'path:always', 'the work on a path is left out', w)
    e = run(P, f, any_of(isf(False), lambda c: (c.a[1] != 'Ok') is False if False else None, bad_path))
    R.check(e.outs and not ends_ok(e) and not e.of(WORK), 'path:bad', 'a text that is no path is worked on, or no error', w)
    # the tags of a filter
    e = run(P, f, isf(True))
    at = e.of('get_all_tags_with_filter', 'get_all_tags')
    fs = [l for l in e.log.values() if l[0] == 'new' and l[3].norm.endswith('TagFilter::new')]
    R.check(len(fs) == 1 and [txt(x, f) for x in fs[0][1]] == ['#3', '#4'], 'filter:is', 'tags are filtered by %s' % [[txt(x, f) for x in l[1]] for l in fs], w)
    R.check(len(at) == 1 and txt(at[0][1][0], f) == '#1' and variant(at[0][1][1]) == 'Some', 'filter:tags', 'the tags worked on are not those of the filter', w)
    # with one job
    ways = [('one', run(P, f, any_of(isf(True), one(True))), f, None)]
    multi = run(P, f, any_of(isf(True), one(False)))
    sp = multi.of('spawn')
    R.check(len(sp) <= 1 and (bool(sp) or bool(multi.of(WORK))), 'threads:spawn', 'with several jobs there is no work', w)
    for l in sp:
        g = P.fns.get(l[1][0].a[0]) if l[1][0].op == 'closure' else None
        if not R.check(g is not None, 'threads:body', 'what a thread does was not found', w):
            continue
        R.fn(g)
        threads(P, R, f, multi, any_of(isf(True), one(False)))
        up = {}
        for k, u in enumerate(l[1][0].a[1]):
            c = counter(multi, f, multi_held(multi, u))
            up[k] = c
        ways.append(('many', run(P, g), g, up))
        R.check(any('get_all_tags_with_filter' in names(u) for u in l[1][0].a[1]), 'threads:tags', 'the threads do not get the tags', w)
    roles = {}
    total = ignored = None
    for kind, base, g, up in ways:
        dec = any_of(isf(True), one(True)) if kind == 'one' else None
        each(P, R, g, kind, dec, up, roles)
    dec = isf(False)
    count(P, R, f, 'path', dec, None, roles, None)
    # the counters
    if not R.check(len(roles) == 3 or set(roles) >= {'all', 'Ignored'}, 'count:roles', 'the results that are counted are %s' % sorted(roles), w):
        return
    final(P, R, f, roles)
    wrap(P, R)
    R.floor('results of the work', 10)


def bad_path(c):
    if c.op == 'isv' and c.a[1] in ('Ok', 'Err') and c.a[0].op == 'call' and c.a[0].a[0].endswith(('TagPath::new', 'TagPath::from_path')):
        return c.a[1] == 'Err'
    return None


def jobs(c, one):
    """truth of a condition on the number of jobs: one, or more"""
    neg = c.op == 'not'
    c0 = c.a[0] if neg else c
    if c0.op not in ('eq0', 'le0') or 'get_jobs' not in names(c0):
        return None
    k, d = lin_parts(c0.a[0])
    if len(d) != 1:
        return None
    x, n = next(iter(d.items()))
    if x.op != 'call':
        return None
    if c0.op == 'eq0':
        r = (k + n == 0) if one else (False if k % n or -k // n < 2 else None)
    elif one:
        r = k + n <= 0
    else:
        r = True if n < 0 and k + 2 * n <= 0 else False if n > 0 and k + 2 * n > 0 else None
    return None if r is None else r != neg


def multi_held(ev, u):
    return u


def work_path(l):
    return l[1][2] if len(l[1]) > 2 else l[1][-1]


def threads(P, R, f, ev, dec):
    w = where(f)
    site = [(s, it, cs) for s, it, cs in all_walks(ev) if it is not None and it.op == 'adt' and 'get_jobs' in names(it) or any('get_jobs' in names(c) for c in cs)]
    R.check(len(site) == 1, 'threads:some', 'threads are not started one by one', w)
    for s, it, cs in site:
        d = dict(it.a[2]) if it is not None else {}
        R.check(it is None or d.get('start') is K(0) and txt(d.get('end'), f).startswith('get_jobs('), 'threads:some', 'the threads started are %s' % txt(it, f) if it is not None else '', w)
        R.ob('results of the work')
        e = run(P, f, dec, {c: True for c in cs}, lambda ev, c, a, st: c.method == 'spawn', [s])
        R.check(e.stopped and not e.outs and not goes_on(e, f, s), 'threads:some', 'a thread is not started', w)
    joins = [x for x in all_walks(ev) if any(at_site(l[1][0], x[0]) for l in ev.of('join') if 'thread' in l[3].norm)]
    R.check(len(joins) == 1, 'threads:join', 'the threads are not waited for', w)
    for s, it, cs in joins:
        R.ob('results of the work')
        R.check(it is None or not partial(it), 'threads:join', 'not all threads are waited for', w)
        e = run(P, f, dec, {c: True for c in cs}, lambda ev, c, a, st: c.method == 'join' and at_site(ev.held(st, a[0]), s), [s])
        R.check(e.stopped and not goes_on(e, f, s), 'threads:join', 'not all threads are waited for', w)


def each(P, R, g, kind, dec, up, roles):
    """the work is done for each tag, with that tag"""
    w = where(g)
    ev = run(P, g, dec)
    ws = ev.of(WORK)
    if not R.check(len(ws) == 1, 'each:%s' % kind, 'the work is called in %d places' % len(ws), w):
        return
    p = work_path(ws[0])
    pops = [x for x in walk(p) if x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in ('pop_front', 'pop_back', 'pop')]
    sites = [x for x in all_walks(ev) if at_site(p, x[0]) and len(x[0]) == 2]
    more = lambda yes: lambda c: (c.a[1] == 'Some') == yes if c.op == 'isv' and c.a[1] in ('Some', 'None') and c.a[0].op == 'call' and c.a[0].a[0].rsplit('::', 1)[-1] in ('pop_front', 'pop_back', 'pop') else None
    locked = ok('lock')(True)
    R.ob('results of the work')
    if pops:
        t = txt(p, g)
        R.check(len(set(pops)) == 1 and not re.search(r'\)\.(path|group)$', t), 'each:tag', 'the work is done with %s' % t[:80], w)
        if up is not None:
            R.check('lock' in names(pops[0].a[2][0]), 'each:lock', 'tags are taken without a lock', w)
        e = run(P, g, any_of(dec, more(True), locked) if dec else any_of(more(True), locked))
        R.check(not e.outs, 'each:end', 'the work ends with tags left', w)
        e = run(P, g, any_of(dec, more(True), locked) if dec else any_of(more(True), locked), None, is_work)
        R.check(e.stopped and not e.outs and not any(h[0] == 0 for h in e.again), 'each:all', 'a tag is taken without the work being done', w)
        e = run(P, g, any_of(dec, more(False), locked) if dec else any_of(more(False), locked))
        R.check(e.outs and not e.of(WORK), 'each:end', 'there is work without a tag', w)
        count(P, R, g, kind, any_of(dec, more(True), locked) if dec else any_of(more(True), locked), up, roles, None)
        return
    if not R.check(len(sites) == 1, 'each:walk', 'the tags are not gone through once', w):
        return
    s, it, cs = sites[0]
    R.check(it is None or not partial(it) and not [x for x in walk(it) if x.op == 'it' and x.a[0] in ('filter', 'filter_map', 'map') or x.op == 'collected' and x.a[0] != 'collect'], 'each:all', 'tags are left out by their place', w)
    R.check('get_all_tags_with_filter' in names(p) or any('get_all_tags_with_filter' in names(x) for x in walk(p)), 'each:tag', 'the work is done with %s' % txt(p, g)[:80], w)
    on = {c: True for c in cs}
    e = run(P, g, dec, on, is_work, [s])
    R.check(e.stopped and not e.outs and not goes_on(e, g, s), 'each:all', 'a tag is passed over', w)
    e = run(P, g, dec, on, None, [s])
    R.check(not e.outs, 'each:end', 'the work ends with tags left', w)
    count(P, R, g, kind, dec, up, roles, (s, on))


def count(P, R, g, kind, dec, up, roles, walk_):
    """what is counted for each result"""
    w = where(g)
    s, on = walk_ if walk_ else (None, None)
    no = [s] if s else []

    def adds(k):
        e = run(P, g, any_of(dec, result(k)) if dec else result(k), on, None, no)
        out = {}
        for l in e.of('fetch_add', 'fetch_sub', 'store', 'swap', 'fetch_max'):
            c = which(l[1][0], up)
            out.setdefault(c, []).append((l[0], l[1][1]))
        return e, out

    base = None
    res = {}
    for k in RESULTS:
        R.ob('results of the work')
        e, out = adds(k)
        R.check(None not in out and all(a == [('fetch_add', K(1))] for a in out.values()), 'count:%s:by' % kind, 'counting %s work is %s' % (k, [[(n, txt(x, g)) for n, x in a] for a in out.values()]), w)
        # none is left out
        for c in out:
            e2 = run(P, g, any_of(dec, result(k)) if dec else result(k), on, lambda ev, cc, a, st: cc.method == 'fetch_add' and which(ev.held(st, a[0]), up) is c, no)
            R.check(not e2.outs and not any(h[0] == 0 for h in e2.again) if s or kind == 'many' else True, 'count:%s:always' % kind, '%s work is not always counted' % k, w)
        res[k] = set(out)
        if k == 'Failed':
            told = [l for l in e.log.values() if l[0].endswith('_ln') or l[0] in ('write_fmt', 'println', '_print', '_eprint')]
            R.check(any(any('Err' in txt(y, g) and WORK in names(y) or blames(y) for y in l[1]) for l in told), 'told:%s' % kind, 'a failure is not told', w)
            stop = lambda ev, cc, a, st: (cc.method.endswith('_ln') or cc.method in ('write_fmt', '_print', '_eprint')) and any(blames(ev.held(st, y)) for y in a)
            e2 = run(P, g, any_of(dec, result(k)) if dec else result(k), on, stop, no)
            R.check(e2.stopped and (not any(h[0] == 0 for h in e2.again) if s or kind == 'many' else True), 'told:%s' % kind, 'a failure is not always told', w)
    every = set.intersection(*res.values())
    R.check(len(every) == 1, 'count:%s:all' % kind, 'not all work is counted', w)
    own = {k: v - every for k, v in res.items()}
    R.check(own['Skipped'] == set(), 'count:%s:skipped' % kind, 'skipped tags are counted as something else', w)
    for k in ('Success', 'Ignored', 'Failed'):
        R.check(len(own[k]) == 1 and all(own[k].isdisjoint(own[j]) for j in own if j != k), 'count:%s:%s' % (kind, k), '%s work is not counted by itself' % k, w)
    got = {'all': next(iter(every), None), **{k: next(iter(own[k]), None) for k in ('Success', 'Ignored', 'Failed')}}
    for k, c in got.items():
        if k in roles:
            R.check(roles[k] is c, 'count:%s:same' % kind, '%s work is counted elsewhere with another number of jobs' % k, w)
        roles.setdefault(k, c)


def blames(y):
    return any(x.op == 'call' and x.a[0] == WORK for x in walk(y)) and any(x.op == 'fld' and str(x.a[1]).startswith('Err') for x in walk(y))


def which(v, up):
    """the counter added to"""
    cs = {x for x in walk(v) if x.op == 'call' and x.a[0] == 'Counter'}
    if len(cs) == 1:
        return next(iter(cs))
    if up is not None and not cs:
        for x in walk(v):
            # captured by number
            if x.op == 'fld' and x.a[0].op == 'arg' and str(x.a[1]).isdigit() and int(x.a[1]) in up:
                return up[int(x.a[1])]
            if x.op == 'ref':
                d = [p for p in x.a[2] if isinstance(p, str) and p.isdigit()]
                if x.a[1].op == 'arg' and d and int(d[0]) in up:
                    return up[int(d[0])]
                if x.a[1].op == 'fld' and x.a[1].a[0].op == 'arg' and str(x.a[1].a[1]).isdigit():
                    return up.get(int(x.a[1].a[1]))
    return None


def final(P, R, f, roles):
    """what is told in the end"""
    w = where(f)
    ev = run(P, f)
    al, ig, fl, su = (roles.get(k) for k in ('all', 'Ignored', 'Failed', 'Success'))

    def none(yes):
        def d(c):
            neg = c.op == 'not'
            c0 = c.a[0] if neg else c
            if c0.op not in ('eq0', 'le0', 'eq'):
                return None
            if c0.op == 'eq':
                cs = {next((y for y in walk(x) if y.op == 'call' and y.a[0] == 'Counter'), None) for x in c0.a}
                return yes != neg if cs == {al, ig} else None
            k, dd = lin_parts(c0.a[0])
            by = {}
            for x, n in dd.items():
                q = next((y for y in walk(x) if y.op == 'call' and y.a[0] == 'Counter'), None)
                by[q] = by.get(q, 0) + n
            if set(by) != {al, ig} or by[al] + by[ig] != 0:
                return None
            if c0.op == 'eq0':
                return (yes if k == 0 else None if not yes else False) if not neg else (None if k else not yes)
            n = by[al]
            r = (k <= 0) if yes else (None if n > 0 and k <= -1 else True if n < 0 and n + k <= 0 else False if n > 0 and n + k > 0 else None)
            return None if r is None else r != neg
        return d
    R.check(any(none(True)(c) is not None for c in ev.met), 'end:asked', 'it is not asked whether any tag was worked on', w)
    good = any_of(lambda c: c.a[1] == 'Some' if c.op == 'isv' and c.a[1] in ('Some', 'None') and c.a[0].op == 'call' and c.a[0].a[0].endswith('into_inner') else None)
    isf = lambda c: True if c.op == 'call' and c.a[0].endswith('::is_filter') else None
    e = run(P, f, any_of(none(True), isf, good))
    R.check(e.outs and not ends_ok(e), 'end:none', 'working on no tag at all is no error', w)
    e = run(P, f, any_of(none(False), isf, good))
    R.ob('outcomes of commands', max(1, len(e.outs)))
    R.check(e.outs and all(variant(y) != 'Err' for y, _ in e.outs), 'end:some', 'working on tags is an error', w)
    shown = [x for l in e.log.values() if l[0].endswith('_ln') for a in l[1] for x in walk(a)]
    cs = {x for x in shown if x.op == 'call' and x.a[0] == 'Counter'}
    R.check({al, fl, su} <= cs, 'end:told', 'the number of tags %s is not told' % ', '.join(n for n, c in (('worked on', al), ('that failed', fl), ('done', su)) if c not in cs), w)


def wrap(P, R):
    f = P.one(N + 'ProcessSuccessType::wrap_write_result')
    if not R.check(f is not None, 'missing:wrap', 'what turns the result of writing a tag into that of the work was not found'):
        return
    R.fn(f)
    w = where(f)
    for y, fs in (x for v in [run(P, f).outs] for o in v for x in [(z, {**o[1], **dict(g)}) for z, g in alts(o[0])]):
        R.ob('outcomes of commands')
        if variant(y) == 'Err':
            R.check(txt(y, f) in ('Err{#1.Err.0}', 'Err{#1}', '#1'), 'wrap:err', 'an error becomes %s' % txt(y, f), w)
    done = lambda yes: lambda c: yes if txt(c, f) in ('#1.Ok.0', '#1') and c.op != 'isv' else None
    good = lambda c: (c.a[1] == 'Ok') if c.op == 'isv' and c.a[1] in ('Ok', 'Err') else None
    for yes, want in ((True, 'Success'), (False, 'Skipped')):
        e = run(P, f, any_of(good, done(yes)))
        got = {inner(z) for y, _ in e.outs for z, _ in alts(y)}
        R.check(got == {want}, 'wrap:%s' % want, 'a tag that was %s counts as %s' % ('written' if yes else 'not written', sorted(map(str, got))), w)
    e = run(P, f, lambda c: (c.a[1] == 'Err') if c.op == 'isv' and c.a[1] in ('Ok', 'Err') else None)
    R.check(e.outs and not ends_ok(e), 'wrap:err', 'a failure to write is no error', w)


def inner(y):
    if y.op == 'adt' and y.a[1] == 'Ok':
        y = y.a[2][0][1]
    return y.a[1] if y.op == 'adt' else None
