"""C08: every unchecked access into cache or resource data uses a range that was checked against that data."""
import re
from ..arith import Arith
from ..layout import *
from ..loops import *
from ..val import *
from ..ev import Ev
from ..prog import resolve_callee
from ..report import where

RULE = ('Every unchecked slice access is either provably within bounds where it happens, or takes a whole range stored beside the data it is applied to; every place that stores such a range, in every way of building the owner, does so only '
        'when the range was found to lie within that very data, and the data itself is never changed afterwards. Bytes taken for text unchecked come from a range found to be text; numbers taken to be nonzero unchecked are nonzero.')
EXPLANATION = 'All functions containing or reaching an unchecked access are evaluated; stored ranges are traced back to all their stores through the evaluation of every constructor.'
UN = ('get_unchecked', 'get_unchecked_mut')
MOD = ('ringhopper', 'ringhopper_primitives')


def uses(P):
    """functions that call something unchecked: {function: set of methods}"""
    out, calls = {}, {}
    for n, f in P.fns.items():
        if f.crate not in MOD:
            continue
        for b, t in f.calls():
            op = t[1]
            if op[0] == 'k' and 'fn' in op[2]:
                c = resolve_callee(P, f, op[2]['fn'], {})
                if c.norm.startswith(('core::', 'alloc::', 'std::')):
                    if c.method in UN or c.method in ('from_utf8_unchecked', 'new_unchecked', 'unwrap_unchecked'):
                        out.setdefault(n, set()).add(c.method)
                elif c.fn is not None:
                    calls.setdefault(c.fn.p, set()).add(n)
    return out, calls


def split_range(v):
    """Range whose both ends are the ends of one stored range: that stored value"""
    if v.op == 'adt' and v.a[0].endswith('Range'):
        d = dict(v.a[2])
        s, e = d['start'], d['end']
        if s.op == 'fld' and e.op == 'fld' and s.a[1] == 'start' and e.a[1] == 'end' and s.a[0] is e.a[0]:
            return s.a[0]
        return None
    return v


def steps(v):
    """base and the fields between it and the value, element positions shown as *"""
    p = []
    while v.op in ('fld', 'idx', 'at', 'deref'):
        if v.op == 'fld':
            p.append(v.a[1])
        elif v.op == 'idx':
            p.append('*')
        v = v.a[0]
    return v, tuple(reversed(p))


def implied(facts, c, ev):
    """comparison c follows from the facts"""
    a = getattr(ev, 'arith', None)
    if a is None:
        a = ev.arith = Arith(ev)
    return a.prove(facts, c)


class Watch(Ev):
    """records every value stored anywhere and every element pushed, with what is known at that point"""

    def __init__(self, P, want, **k):
        super().__init__(P, **k)
        self.want = want
        self.stores = {}
        self.entered = set()
        self.at = None

    def body(self, fr, st):
        self.entered.add(fr.fn.p)
        return super().body(fr, st)

    def store(self, st, root, path, v):
        self.note(st, tuple(path), v)
        return super().store(st, root, path, v)

    def pre(self, fr, st, c, args, b, line):
        if c.method == 'push' and c.norm.startswith('alloc::vec::Vec') and len(args) == 2 and args[0].op == 'ref':
            self.note(st, tuple(args[0].a[2]) + ('*',), args[1], '%s:%s (%s)' % (fr.fn.file, line, fr.fn.p))
        return super().pre(fr, st, c, args, b, line)

    def note(self, st, path, v, w=''):
        for n, key in enumerate(self.want(path, v)):
            self.stores[(self.site, w, path, n)] = (key, dict(st.facts), w)


def inside(facts, v, isdata, ev):
    """the stored range was checked against the data"""
    if v.op == 'adt' and v.a[0].endswith('Range'):
        d = dict(v.a[2])
        s, e = d['start'], d['end']
    elif v.op == 'k' or (v.op == 'call' and v.a[0].endswith('::default')):
        return True
    else:
        s, e = mk('fld', v, 'start'), mk('fld', v, 'end')
    if s is K(0) and e is K(0):
        return True
    lens = {x for c in facts for x in walk(c) if x.op == 'len' and isdata(x.a[0])} | {x for x in walk(e) if x.op == 'len' and isdata(x.a[0])}
    return implied(facts, le(s, e), ev) and any(implied(facts, le(e, l), ev) for l in lens)


def check(P, R):
    us, callers = uses(P)
    stored = {}     # (owner, range path, data path) needed
    for n in sorted(us):
        f = P.fns[n]
        R.fn(f)
        todo = [(f, 0)]
        done = set()
        while todo:
            g, depth = todo.pop()
            if g.p in done:
                continue
            done.add(g.p)
            if '{closure' in g.p:
                up = P.fns.get(g.p[:g.p.index('::{closure')])
                if up is not None:
                    todo.append((up, depth))
                    continue
            ev = Ev(P)
            ev.run(g)
            up = False
            for e in ev.events.values():
                if e.fn != n:
                    continue
                w = '%s:%s (%s)' % (e.file, e.line, e.fn)
                if e.kind == 'unchecked' and e.callee.method in UN:
                    R.ob('unchecked slice accesses')
                    cont, ix, ln = e.args[:3]
                    if ix.op != 'adt' and split_range(ix) is ix and implied(e.facts, lt(ix, ln), ev):
                        continue
                    d = dict(ix.a[2]) if ix.op == 'adt' else {}
                    if 'start' in d and implied(e.facts, le(d['start'], d.get('end', ln)), ev) and implied(e.facts, le(d.get('end', ln), ln), ev):
                        continue
                    if ix.op == 'adt' and set(d) == {'start', 'end'} and local_len(ev, e, d, ln):
                        continue
                    r = split_range(ix)
                    if r is not None:
                        b1, p1 = steps(r)
                        b2, p2 = steps(cont)
                        if b1 is b2 and p1 and p2:
                            own, k = owner(P, g, b1, p1, p2)
                            if own is not None:
                                stored.setdefault(own, {})[k] = w
                                continue
                    up = True
                    last = (w, 'a slice access without a bounds check uses a range that is not known to lie within the slice: %s' % show(ix, 4))
                elif e.kind == 'call' and e.callee.method == 'from_utf8_unchecked':
                    R.ob('bytes taken for text')
                    x = e.cont[0]
                    if x is not None and x.op == 'slice':
                        r = split_range(adt('core::ops::range::Range', 'Range', (('start', x.a[1]), ('end', x.a[2]))))
                        if r is not None:
                            b1, p1 = steps(r)
                            b2, p2 = steps(x.a[0])
                            if b1 is b2:
                                own, k = owner(P, g, b1, p1, p2)
                                if own is not None:
                                    stored.setdefault(own, {})[k + ('text',)] = w
                                    continue
                        if any(y.a[1] == 'string_data' for y in walk(x.a[0]) if y.op == 'fld'):
                            continue        # fixed strings: their constructors are checked below
                    up = True
                    last = (w, 'bytes not known to be text are taken for text')
                elif e.kind == 'call' and e.callee.method == 'new_unchecked' and 'nonzero' in e.callee.norm:
                    R.ob('numbers taken to be nonzero')
                    x = e.args[0]
                    good = iskint(x) and kval(x) != 0 or e.facts.get(eq0(x)) is False or positive(x) or all(iskint(y) and kval(y) for y, _ in alts(x))
                    R.check(good, 'zero:' + short_fn(n), 'a number that may be zero is taken to be nonzero: %s' % show(x, 4), w)
                elif e.kind == 'unwrap' and e.callee.method == 'unwrap_unchecked':
                    R.viol('unwrap:' + short_fn(n), 'a value is taken out unchecked', w)
            if up:
                cs = [P.fns[c] for c in callers.get(g.p, ()) if c in P.fns]
                safe = [c for c in cs if not is_unsafe(P, c)]
                if is_unsafe(P, g):
                    todo += [(c, depth + 1) for c in cs]
                else:
                    R.viol('unchecked:' + short_fn(n) + (':' + short_fn(g.p) if g is not f else ''), last[1], last[0])
    R.floor('unchecked slice accesses', 10)
    ranges(P, R, stored)
    strings(P, R)


def is_unsafe(P, f):
    return bool(f.d.get('unsafe'))


def positive(x):
    """arithmetic that cannot give zero"""
    if iskint(x):
        return kval(x) > 0
    if x.op == 'call' and x.a[0].endswith('NonZero::get'):
        return True
    return False


def local_len(ev, e, d, ln):
    """0..n where n counts a prefix of the very bytes: a search position within them or their length"""
    if d['start'] is not K(0):
        return False
    for y, fs in alts(d['end']):
        facts = dict(e.facts)
        facts.update(dict(fs))
        if y is ln or implied(facts, le(y, ln), ev):
            continue
        if y.op in ('elem', 'elemix'):
            src = source(ev.iters.get(y.a[1]))
            if src is not None and src.op == 'adt' and dict(src.a[2]).get('end') is not None and le(dict(src.a[2])['end'], ln) is TRUE:
                continue
        return False
    return True


def short_fn(n):
    n = re.sub(r'<[^<>]*>', '', n.replace('ringhopper::', '').replace('ringhopper_primitives::', ''))
    return n.strip('<>:')[-70:]


def norm(p):
    """the fields that matter: smart pointers and options do not"""
    return tuple(x for x in p if x not in ('0', 'Some.0', 'pointer', '0.pointer'))


def owner(P, f, base, rp, dp):
    """the structure that keeps both the range and the data, and the two paths inside it"""
    t = None
    if base.op == 'arg':
        for i in range(1, f.argc + 1):
            if f.lname(i) == base.a[0]:
                t = f.lty(i)
    if t is None:
        return None, None
    i = 0
    cur = re.sub(r"^&('\w+ )?(mut )?", '', t)
    cur = re.sub(r'<.*', '', cur)
    rp, dp = list(rp), list(dp)
    # descend while both go through the same field
    while rp and dp and len(dp) > 1 and rp[0] == dp[0]:
        x = rp.pop(0)
        dp.pop(0)
        if x in ('Some.0', '0'):
            continue
        ad = P.adts.get(cur)
        ft = next((q[1] for q in ad['variants'][0][2] if q[0] == x), None) if ad else None
        if ft is None:
            return None, None
        m = re.match(r'(?:core::option::)?Option<(.*)>$', ft)
        cur = re.sub(r'<.*', '', m.group(1) if m else ft)
        if cur not in P.adts and m:
            return None, None
    return cur, (norm(rp), norm(dp))


def ranges(P, R, stored):
    for own, need in sorted(stored.items()):
        ad = P.adts.get(own)
        if ad is None:
            R.viol('owner:' + own, 'the structure keeping the ranges was not found: ' + own)
            continue
        ftypes = {q[0]: q[1] for q in ad['variants'][0][2]}
        want = {}       # key -> description
        for k, w in need.items():
            rp, dp = k[0], k[1]
            want[(rp, dp, len(k) > 2)] = w
        # element structures between the owner and the range
        paths = {}
        for rp, dp, text in want:
            el = None
            if '*' in rp and rp[-1] != '*':
                m = re.search(r'([\w:]+)\s*>*$', ftypes.get(rp[0], ''))
                el = re.sub(r'.*Vec<(.*?)>?$', r'\1', ftypes.get(rp[0], ''))
                el = re.sub(r'[,<].*', '', el)
            paths[(rp, dp, text)] = el

        def wantf(path, v):
            ks = []
            plain = tuple(x for x in path if isinstance(x, str))
            stack = [v]
            seen = 0
            while stack and seen < 40:
                x = stack.pop()
                seen += 1
                if x.op == 'adt':
                    for key, el in paths.items():
                        rp = key[0]
                        if x.a[0] == own and rp and len(rp) == 1 and rp[0] in dict(x.a[2]):
                            ks.append((key, dict(x.a[2])[rp[0]]))
                        if el and x.a[0] == el and rp[-1] in dict(x.a[2]):
                            ks.append((key, dict(x.a[2])[rp[-1]]))
                    stack += [y for _, y in x.a[2] if isinstance(y, V)] if x.a[0].startswith(('core::result', 'core::option')) else []
            for key, el in paths.items():
                rp = key[0]
                if len(rp) == 1 and plain[-1:] == rp:
                    ks.append((key, v))
                elif rp[-1] == '*' and plain[-len(rp):] == rp:
                    ks.append((key, v))
            return ks
        data = {dp for rp, dp, text in want}
        datafield = {dp[-1] for dp in data}
        # constructors: functions giving the owner
        roots = [f for n, f in sorted(P.fns.items()) if f.crate == 'ringhopper' and '{closure' not in n and own in f.lty(0) and not f.lty(0).startswith('&') and f.argc > 0 and 'Arc<' not in f.lty(0)
                 and not any(own in re.sub(r"^&('\w+ )?(mut )?", '', f.lty(i)) for i in range(1, f.argc + 1)) and 'dyn' not in f.lty(0)]
        entered = set()
        nst = 0
        for f in roots:
            R.fn(f)
            R.ob('ways of building the owner of a range')
            ev = Watch(P, lambda path, v: wantf(path, v), opaque=lambda c: c.method in ('read_from_map', 'read', 'extract_tag', 'read_chunks_from_map_to_iterator', 'update') or c.fn is None and False)
            v, st = ev.run(f)
            entered |= ev.entered
            args = {mk('arg', f.lname(i)) for i in range(1, f.argc + 1)}

            def isdata(x):
                while x.op in ('at', 'deref', 'box'):
                    x = x.a[0]
                if x.op == 'slice':
                    return False
                if x.op == 'ref':
                    return bool(x.a[2]) and x.a[2][-1] in datafield
                return x in args and True or x.op == 'fld' and x.a[1] in datafield or x.op == 'phi' and all(isdata(y) or never(P, own, y) for y, _ in alts(x))
            for (key, rv), facts, w in list(ev.stores.values()):
                nst += 1
                R.ob('stored ranges')
                allf = dict(st.facts)
                allf.update(facts)
                for y, fs in alts(rv):
                    ff = dict(allf)
                    ff.update(dict(fs))
                    R.check(inside(ff, y, isdata, ev) or keeps(y, key, own), 'range:%s.%s' % (short(own), '.'.join(key[0])), 'a range kept for unchecked access is stored without having been checked against the data: %s' % show(y, 4), w or where(f))
                    if key[2]:
                        R.check(text_ok(ff, y), 'text:%s.%s' % (short(own), '.'.join(key[0])), 'bytes later taken for text unchecked are not known to be text', w or where(f))
            for (kv, vv) in ():
                pass
        R.check(bool(roots), 'nobuilder:' + own, 'no way of building %s was found' % own)
        R.check(nst > 0, 'nostores:' + own, 'no stored range of %s was found' % own)
        # other writers of the ranges or of the data
        for n, f in sorted(P.fns.items()):
            if f.crate != 'ringhopper' or n in entered or not writes(P, f, own, {k[0][0] for k in want} | {d[-1] for d in data}):
                continue
            R.viol('writer:%s:%s' % (short(own), short_fn(n)), 'the data or the ranges of %s are changed outside its construction' % short(own), where(f))
        for n in sorted(entered):
            f = P.fns.get(n)
            if f is not None and writes(P, f, own, {d[-1] for d in data}):
                R.viol('data:%s:%s' % (short(own), short_fn(n)), 'the data of %s is changed while its ranges are being set up' % short(own), where(f))


_keys = {}


def never(P, own, y):
    """what a side table keyed by alternatives would give for an alternative that is never a key of it"""
    if y.op == 'fld' and y.a[1] == 'Some.0' and y.a[0].op == 'call' and y.a[0].a[0].endswith('HashMap::get'):
        t, k = y.a[0].a[2][:2]
        while k.op in ('at', 'deref', 'ref') and k.op != 'ref':
            k = k.a[0]
        field = t.a[1] if t.op == 'fld' else t.a[3][-1] if t.op == 'lphi' and t.a[3] else None
        if isinstance(field, str) and k.op == 'adt':
            vs = keys(P, own, field)
            return vs is not None and k.a[1] not in vs
    return False


def keys(P, own, field):
    """the alternatives ever used as a key of the table in this field, or None when that is unknown"""
    if (own, field) not in _keys:
        out = set()
        for n, f in sorted(P.fns.items()):
            if f.crate != 'ringhopper' or not assigns(P, f, own, {field}):
                continue
            ev = Ev(P)
            ev.run(f)
            hit = False
            for e in ev.events.values():
                if e.kind == 'call' and e.args and e.args[0].op == 'ref' and e.args[0].a[0] and e.args[0].a[2] and e.args[0].a[2][-1] == field:
                    hit = True
                    if e.callee.method == 'insert' and e.args[1].op == 'adt':
                        out.add(e.args[1].a[1])
                    else:
                        out.add(None)
            if not hit:
                out.add(None)
        _keys[(own, field)] = None if None in out else out
    return _keys[(own, field)]


def keeps(y, key, own):
    """a range that comes from where it is stored (copied whole)"""
    b, p = steps(y)
    return norm(p)[-len(key[0]):] == key[0] and b.op in ('arg', 'mut', 'lphi')


def text_ok(facts, v):
    """the end was computed from a piece found to be valid text starting at the start"""
    d = dict(v.a[2]) if v.op == 'adt' else {}
    if 'end' not in d:
        return False
    pieces = [x for x in walk(sub(d['end'], d['start'])) if x.op == 'len']
    for l in pieces:
        if any(x.op in ('call', 'fld') and 'to_str' in show(x, 6) or x.op == 'call' and 'from_utf8' in x.a[0] for x in walk(l)):
            return sub(d['end'], d['start']) is l
    return False


def writes(P, f, own, fields):
    """the body assigns to, or mutably borrows, one of the fields of the owner"""
    return assigns(P, f, own, set(fields))


def assigns(P, f, own, fields):
    def hits(pl):
        t = f.lty(pl[0])
        for x in pl[1:]:
            if x == '*':
                t = re.sub(r"^(&('\w+ )?(mut )?|alloc::boxed::Box<)", '', t)
            elif isinstance(x, list) and x[0] == '.':
                b = re.sub(r'<.*', '', t)
                if b == own and len(x) > 2 and x[2] in fields:
                    return True
                ad = P.adts.get(b)
                t = ''
                if ad and ad['kind'] == 'struct' and x[1] < len(ad['variants'][0][2]):
                    t = ad['variants'][0][2][x[1]][1]
            else:
                t = ''
        return False
    for ss, t in f.bb:
        for s in ss:
            if len(s) > 1 and isinstance(s[0], list) and isinstance(s[1], list):
                if hits(s[0]) or s[1][0] == 'ref' and s[1][1] and hits(s[1][2]):
                    return True
    return False


def strings(P, R):
    """the bytes kept in a fixed-length string are text up to their end, in every way of making one"""
    own = next((n for n, a in P.adts.items() if a['kind'] == 'struct' and any(q[0] == 'string_data' for q in a['variants'][0][2])), None)
    if not R.check(own is not None, 'string32', 'the fixed-length string type was not found'):
        return
    n = 0
    for p, f in sorted(P.fns.items()):
        if not f.crate.startswith('ringhopper') or not (assigns(P, f, own, {'string_data'}) or builds(f, own)):
            continue
        n += 1
        R.fn(f)
        ev = Watch(P, lambda path, v: [(0, v)] if v.op == 'adt' and v.a[0] == own else [], opaque=lambda c: c.fn is not None and own in c.fn.lty(0))
        v, st = ev.run(f)
        fresh = set()
        for e in ev.events.values():
            if e.kind != 'call' or not e.args or e.args[0].op != 'ref' or not e.args[0].a[0] or 'string_data' not in e.args[0].a[2]:
                continue
            R.ob('text copied into a fixed-length string')
            w = '%s:%s (%s)' % (e.file, e.line, e.fn)
            d = e.cont[0]
            good = False
            if e.callee.method in ('copy_from_slice', 'clone_from_slice') and d.op == 'slice' and d.a[1] is K(0) and d.a[0].op == 'fld' and d.a[0].a[0].op == 'call' and d.a[0].a[0].a[0].endswith('::default'):
                src = e.args[1]
                text = src.op == 'arg' and any(f.lname(i) == src.a[0] and 'str' in f.lty(i).split() + [f.lty(i).lstrip('&')] for i in range(1, f.argc + 1))
                l = mk('len', mk('at', src))
                good = text and d.a[2] is l and implied(e.facts, lt(l, mk('len', d.a[0])), ev)
            R.check(good, 'text32:' + short_fn(p), 'a fixed-length string is filled with something other than a whole text that leaves room for its end', w)
        for (key, y), facts, w in ev.stores.values():
            R.ob('fixed-length strings made from bytes')
            x = dict(y.a[2])['string_data']
            good = any(t and c.op == 'isv' and c.a[1] == 'Borrowed' and c.a[0].op == 'call' and c.a[0].a[0].endswith('to_string_lossy') and (z := c.a[0].a[2][0]).op == 'fld' and z.a[1] == 'Ok.0'
                       and z.a[0].op == 'call' and z.a[0].a[0].endswith('from_bytes_until_nul') and z.a[0].a[2][0] is x for c, t in facts.items())
            R.check(good, 'bytes32:' + short_fn(p), 'a fixed-length string is made from bytes not known to be text with an end', w or where(f))
    R.floor('text copied into a fixed-length string', 1)
    R.floor('fixed-length strings made from bytes', 1)


def builds(f, own):
    for ss, t in f.bb:
        for x in ss:
            if len(x) > 1 and isinstance(x[1], list) and x[1][0] == 'agg' and x[1][1][0] == 'adt' and x[1][1][1] == own:
                return True
    return False
