"""C13: comparing two tags reports exactly the values that differ."""
import re
from ..layout import *
from ..loops import *
from ..dyn import *
from ..defs import camel
from ..report import where

RULE = ('For each kind of value, comparison converts both values to that kind without failing and records a difference exactly when the two whole values (floats rounded to the stored precision) are unequal. '
        'Lists compare lengths and every common element; structures compare every field, skipping one exactly when it exists only in caches and those were not asked for. Hand-written equality covers every field.')
EXPLANATION = 'The comparison dispatcher is evaluated on two values of each concrete type; recorded differences are judged by the branch facts under which they are recorded.'
DT = 'ringhopper_primitives::dynamic::DynamicTagDataType'
SP = 'ringhopper_primitives::dynamic::SimplePrimitiveType'
NAMES = {'Float': 'f64', 'Size': 'usize', 'Bool': 'bool', 'I8': 'i8', 'U8': 'u8', 'I16': 'i16', 'U16': 'u16', 'I32': 'i32', 'U32': 'u32', 'Index': 'Option<u16>'}
DYN = 'dyn ringhopper_primitives::dynamic::DynamicTagData'
CTX = 'ringhopper::tag::compare::Context'


class Cmp(DynEv):
    kinds = {}
    cache_only = None

    def pre(self, fr, st, c, args, b, line):
        if args and c.method in ('data_type', 'as_array', 'as_enum'):
            d, p = self.plain(st, args[0])
            if d is not None and d.a[0] in self.kinds:
                k = self.kinds[d.a[0]]
                if c.method == 'data_type':
                    return k, st
                good = k.a[1] in (('Reflexive', 'Array') if c.method == 'as_array' else ('Enum',))
                return (some(mk('ref', False, d, ())) if good else NONE), st
        if c.method == 'get_metadata_for_field' and self.cache_only is not None:
            if self.cache_only == 'none':
                return NONE, st
            return some(adt('ringhopper_primitives::dynamic::TagFieldMetadata', 'TagFieldMetadata', (('cache_only', K(self.cache_only)),))), st
        return super().pre(fr, st, c, args, b, line)


def rename(v, a, b, memo=None):
    """does v, with a replaced by b, read as ... (structural map over terms)"""
    memo = {} if memo is None else memo
    if v is a:
        return b
    if v in memo:
        return memo[v]
    def go(x):
        if isinstance(x, V):
            return rename(x, a, b, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    r = mk(v.op, *[go(x) for x in v.a])
    memo[v] = r
    return r


def whole(ev, x, base):
    """x is the value `base`, possibly with its floats rounded to 32 bits, none of it left out"""
    if x is base or x is mk('at', base):
        return True
    if x.op == 'cast' and x.a[0].op == 'cast' and x.a[0].a[1:] == ('float', 'f32', 'f64')[0:0]:
        return False
    if x.op == 'cast':
        return 'f' in str(x.a[1:]) and whole(ev, x.a[0], base)
    if x.op == 'adt' and x.a[2]:
        return all(whole(ev, y, ev.project(mk('at', base) if base.op == 'dynobj' else base, n)) for n, y in x.a[2])
    if x.op == 'arr' and x.a[0]:
        return all(whole(ev, y, mk('idx', base, mk('ix', K(i)))) for i, y in enumerate(x.a[0]))
    return False


def about(c, ds):
    return any(x in ds for x in walk(c))


def leaf(P, R, f, name, kind, k):
    a, b = mk('dynobj', name, 'a'), mk('dynobj', name, 'b')
    ev = Cmp(P, {}, opaque=lambda c: c.method in ('eq', 'ne'))
    ev.kinds = {name: kind}
    v, st = ev.run(f, args=[mk('ref', False, a, ()), mk('ref', False, b, ()), mk('arg', 'path'), mk('arg', 'comparison'), mk('arg', 'depth'), mk('arg', 'abbreviated')], sub={'T': DYN})
    R.ob('kinds of values')
    from .c16 import dead
    for e in dead(ev):
        R.viol('panic:' + k, 'comparing values of kind %s fails: they are taken for another type' % k, '%s:%s (%s)' % (e.file, e.line, e.fn))
        return None
    return ev, v, st, a, b


def pushes(ev):
    return [e for e in ev.events.values() if e.kind == 'call' and e.callee.method == 'push' and e.callee.norm.startswith('alloc::vec::Vec')]


def simple(P, R, f, name, kind, k):
    r = leaf(P, R, f, name, kind, k)
    if r is None:
        return
    ev, v, st, a, b = r
    w = where(f)
    ds = {a, b}
    cmps = {}
    for e in ev.events.values():
        if e.kind == 'call' and e.callee.method in ('eq', 'ne') and len(e.args) == 2 and any(about(c, {a}) for c in e.cont) and any(about(c, {b}) for c in e.cont):
            cmps[e.val] = e
    full = {}
    for val, e in cmps.items():
        x, y = e.cont[0], e.cont[1]
        if about(x, {b}):
            x, y = y, x
        base = x
        good = rename(x, a, b) is y
        if kind.a[1] == 'Enum':
            good = good and x.op == 'call' and x.a[0].endswith('get_enum_string_value')
        elif kind.a[1] in ('Data', 'FileData', 'BSPVertexData'):
            good = good and (x is ev.project(mk('at', a), 'bytes') or whole(ev, x, a))
        else:
            good = good and whole(ev, x, a)
        if good:
            full[val] = e.callee.method == 'ne'
    R.check(bool(full), 'whole:' + k, 'comparison of %s never compares the two whole values' % k, w)
    missed = True
    lens = set()
    for p in pushes(ev):
        rel = {(c, t) for c, t in p.facts.items() if about(c, ds) and c.op != 'edge' and not (c.op == 'isv') and c not in (None,)}
        neq = {(c, t) for c, t in rel if c in full and full[c] == t}
        le_ = {(c, t) for c, t in rel if c.op == 'eq0' and any(x.op == 'len' for x in walk(c))}
        rest = rel - neq - le_
        R.check(bool(neq) or any(not t for c, t in le_), 'false:' + k, 'a difference of %s is recorded although the values are equal' % k, '%s:%s (%s)' % (p.file, p.line, p.fn))
        if rest:
            continue
        if neq and all(t for c, t in le_):
            missed = False
            lens |= {c for c, t in le_}
    for c in lens:
        if not any((c, False) in p.facts.items() for p in pushes(ev)):
            missed = True
    R.check(not missed, 'missed:' + k, 'values of kind %s can differ without a difference being recorded' % k, w)


def lists(P, R, f, kname, n):
    kind = adt(DT, kname, ())
    r = leaf(P, R, f, 'List', kind, kname)
    if r is None:
        return
    ev, v, st, a, b = r
    w = where(f)
    rec = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method == f.n and e.args[0] is not None]
    if len(rec) != 1:
        R.viol('elements:' + kname, 'elements of lists are compared by %d operations' % len(rec), w)
        return
    e = rec[0]
    xs = [x for x in walk(e.args[0]) if x.op == 'call' and x.a[0].endswith('get_at_index')]
    ys = [x for x in walk(e.args[1]) if x.op == 'call' and x.a[0].endswith('get_at_index')]
    ok_ = len(xs) == 1 and len(ys) == 1 and xs[0].a[2][1] is ys[0].a[2][1] and a in set(walk(xs[0].a[2][0])) and b in set(walk(ys[0].a[2][0]))
    ix = xs[0].a[2][1] if xs else None
    R.check(ok_, 'pair:' + kname, 'an element of one list is not compared with the element at the same place of the other', w)
    rng = None
    for x in walk(ix) if ix is not None else ():
        if x.op in ('elem', 'elemix'):
            it = source(ev.iters.get(x.a[1]))
            if it is not None and it.op == 'adt' and it.a[0].endswith('Range'):
                rng = (x, dict(it.a[2]))
    la = [x for x in walk(st.facts and mk('tup', tuple(st.facts)) or K(0)) if 0]
    good = rng is not None and ix is rng[0] and rng[1]['start'] is K(0)
    if good:
        ends = {y for y, _ in alts(rng[1]['end'])}
        good = len(ends) == 2 and all(y.op == 'call' and y.a[0].endswith('::len') for y in ends) and {next((z for z in (a, b) if z in set(walk(y))), None) for y in ends} == {a, b}
        for y, fs in alts(rng[1]['end']):
            o = next((z for z in ends if z is not y), None)
            if good and o is not None:
                facts = dict(fs)
                good = facts.get(le(y, o)) is True or facts.get(le(o, y)) is False or facts.get(lt(y, o)) is True or facts.get(lt(o, y)) is False
        for c, t in e.facts.items():
            if about(c, {a, b}) and c.op not in ('edge', 'isv') and not (rng[0] in set(walk(c))) and c.op != 'eqv' and not (c.op == 'call'):
                good = False
    R.check(good, 'range:' + kname, 'not every element the two lists have in common is compared', w)
    if good:
        R.check(exhausted(st.facts, rng[0]), 'break:' + kname, 'comparison of lists can end before the last common element', w)
    le_ = [p for p in pushes(ev) if any(c.op == 'eq0' and not t and about(c, {a}) and about(c, {b}) and any(x.op == 'call' and x.a[0].endswith('::len') for x in walk(c)) for c, t in p.facts.items())]
    R.check(len(le_) == len(pushes(ev)) == 1, 'length:' + kname, 'lists of different length are not reported as different exactly then', w)


def blocks(P, R, f):
    kind = adt(DT, 'Block', ())
    for co, allow in ((True, False), (True, True), (False, False), (False, True), ('none', False)):
        a, b = mk('dynobj', 'B', 'a'), mk('dynobj', 'B', 'b')
        ev = Cmp(P, {}, opaque=lambda c: c.method in ('eq', 'ne'))
        ev.kinds = {'B': kind}
        ev.cache_only = co
        root = mk('loc', 'ctx', 'ctx')
        from ..ev import State
        st0 = State({}, {})
        ev.store(st0, root, (), adt(CTX, 'Context', (('differences', mk('arg', 'found')), ('allow_cache_only', K(allow)))))
        v, st = ev.run(f, args=[mk('ref', False, a, ()), mk('ref', False, b, ()), mk('arg', 'path'), mk('ref', True, root, ()), mk('arg', 'depth'), mk('arg', 'abbreviated')], sub={'T': DYN}, st=st0)
        R.ob('field skipping cases')
        rec = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method == f.n]
        skip = co is True and not allow
        k = '%s:%s' % (co, allow)
        w = where(f)
        R.check(bool(rec) != skip, 'skip:' + k, 'a %s field is %scompared when cache-only fields are %sasked for' % ('cache-only' if co is True else 'normal', '' if rec else 'not ', '' if allow else 'not '), w)
        for e in rec:
            xs = [x for x in walk(e.args[0]) if x.op == 'call' and x.a[0].endswith('get_field')]
            ys = [x for x in walk(e.args[1]) if x.op == 'call' and x.a[0].endswith('get_field')]
            ok_ = len(xs) == 1 and len(ys) == 1 and ys[0].a[2][1] is xs[0].a[2][1] and a in set(walk(xs[0].a[2][0])) and b in set(walk(ys[0].a[2][0]))
            R.check(ok_, 'pair:block:' + k, 'a field of one structure is not compared with the same field of the other', w)
            if not ok_:
                continue
            n = xs[0].a[2][1]
            ix = next((x for x in walk(n) if x.op == 'elemix'), None)
            src = source(ev.iters.get(ix.a[1])) if ix is not None else None
            good = src is not None and any(x.op == 'call' and x.a[0].endswith('::fields') for x in walk(src))
            R.check(good, 'all:block:' + k, 'not every field of a structure is compared', w)
            if good:
                R.check(exhausted(st.facts, ix), 'break:block:' + k, 'comparison of a structure can end before its last field', w)
                bad = [c for c, t in e.facts.items() if about(c, {a, b}) and c.op not in ('edge', 'isv', 'eqv') and ix not in set(walk(c)) and not (c.op == 'call' and c.a[0].endswith('::eq'))]
                R.check(not bad, 'cond:block:' + k, 'fields are compared only under a condition: %s' % [show(c, 4) for c in bad], w)
        tr = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method in ('truncate', 'clear', 'pop', 'remove', 'drain', 'split_off') and 'differences' in show(e.args[0], 4)]
        ins = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method in ('insert', 'push') and e.callee.norm.startswith('alloc::vec')]
        for t in tr:
            R.check(any(t.facts.items() <= i.facts.items() for i in ins), 'dropped:' + k, 'recorded differences are dropped without a replacement', '%s:%s (%s)' % (t.file, t.line, t.fn))


def entry(P, R):
    f = P.one('compare_tags')
    if f is None:
        R.viol('missing:compare_tags', 'compare_tags was not found')
        return
    R.fn(f)
    R.ob('entry')
    ev = Ev(P, opaque=lambda c: c.method in ('compare_tag_data_blocks', 'compare_tag_data', 'eq', 'ne', 'group'))
    v, st = ev.run(f)
    names = [f.lname(i + 1) for i in range(f.argc)]
    rec = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method in ('compare_tag_data_blocks', 'compare_tag_data')]
    w = where(f)
    if len(rec) != 1:
        R.viol('entry', 'comparing two tags runs %d comparisons' % len(rec), w)
        return
    e = rec[0]
    A = [mk('arg', n) for n in names]
    R.check(A[0] in set(walk(e.args[0])) and A[1] in set(walk(e.args[1])), 'entry:pair', 'the two tags compared are not the two tags given', w)
    R.check(any(ev.project(c, 'allow_cache_only') is A[2] for c in e.cont if c is not None) and e.args[-1] is A[3], 'entry:options', 'comparison does not use the options given', w)
    for y, _ in alts(v):
        R.check(any(x.op == 'mut' for x in walk(y)) and y.op == 'fld' and y.a[1] == 'differences', 'entry:result', 'comparing two tags does not return the recorded differences: %s' % show(y, 4), w)


def equality(P, R):
    for n, f in sorted(P.fns.items()):
        m = re.match(r'<(ringhopper_primitives::(?:primitive|parse|tag|dynamic)::[\w:]+)(?:<.*>)? as core::cmp::PartialEq>::eq$', n)
        if not m or m.group(1) not in P.adts:
            continue
        ad = P.adts[m.group(1)]
        if ad['kind'] != 'struct':
            continue
        R.fn(f)
        R.ob('hand-written equalities')
        ev = Ev(P)
        a, b = mk('arg', 'a'), mk('arg', 'b')
        v, st = ev.run(f, args=[mk('ref', False, mk('cst', a), ()), mk('ref', False, mk('cst', b), ())])
        flds = [x[0] for x in ad['variants'][0][2]]
        # what a shared borrower may fill in is a cache, not part of the value
        derived = {x[0] for x in ad['variants'][0][2] if re.search(r'\b(OnceLock|OnceCell|LazyLock|LazyCell|Mutex|RwLock|RefCell|Cell|PhantomData)\b', x[1])}
        for y, fs in alts(v):
            if y is FALSE:
                continue
            terms = [c for c, t in fs if t] + [c for c, t in fs if not t and c.op in ('ne',)] + ([y] if y is not TRUE else [])
            for fl in flds:
                if fl in derived:
                    continue
                fa, fb = ev.project(a, fl), ev.project(b, fl)
                R.check(any(any(x is fa or x is ev.project(mk('at', a), fl) for x in walk(t)) and any(x is fb or x is ev.project(mk('at', b), fl) for x in walk(t)) for t in terms), 'eq:%s:%s' % (short(m.group(1)), fl),
                        '%s values with different %s are held equal' % (short(m.group(1)), fl), where(f))


def kinds(P, R):
    """types by what they report to be; also whether they offer the matching view"""
    out = {}
    for n, f in sorted(P.fns.items()):
        if not n.endswith('::primitive_type'):
            continue
        R.ob('kinds reported')
        R.fn(f)
        v, st = Ev(P).run(f)
        t = short(f.selfty)
        k = v.a[1] if v is not None and v.op == 'adt' and v.a[0] == SP else None
        want = {y: x for x, y in NAMES.items()}.get(t, t)
        R.check(k == want, 'kind:' + t, 'values of type %s report the kind %s' % (t, k), where(f))
        if k:
            out[k] = t
    return out


def check(P, R):
    f = P.one('compare_tag_data')
    if f is None:
        R.viol('missing:compare_tag_data', 'the comparison of values was not found')
        return
    R.fn(f)
    ks = kinds(P, R)
    for v in [x[0] for x in P.adts[SP]['variants']]:
        t = ks.get(v, NAMES.get(v, v))
        simple(P, R, f, t, adt(DT, 'SimplePrimitive', (('0', adt(SP, v, ())),)), v)
    for v in [x[0] for x in P.adts[DT]['variants']]:
        if v in ('SimplePrimitive', 'Block'):
            continue
        if v in ('Reflexive', 'Array'):
            lists(P, R, f, v, v)
        else:
            simple(P, R, f, v, adt(DT, v, ()), v)
    blocks(P, R, f)
    entry(P, R)
    equality(P, R)
    R.floor('kinds of values', 40)
    R.floor('kinds reported', 30)
    R.floor('field skipping cases', 5)
