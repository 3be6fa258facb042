"""C20: access to fields by name: every defined field, and only those, is reachable under its name, with its defined attributes."""
from ..layout import *
from ..report import where
from ..defs import camel, matcher, rustname

RULE = ('The by-name accessors of every structure and flag set are abstractly evaluated with an unknown name: each path returning a field must be guarded by equality with exactly that field\'s '
        'name and return a reference to that field of self; the listed names, attributes and permitted reference groups must be those of the definitions. Index accessors must return an element '
        'exactly when the index is below the length.')
EXPLANATION = 'Names, attributes and reference groups come from an independent reader of the JSON definitions.'
DYN = 'ringhopper_primitives::dynamic::'
DTD = DYN + 'DynamicTagData'
ARRT = DYN + 'DynamicTagDataArray'
PR = 'ringhopper_primitives::primitive::'
SELF = mk('arg', 'self')


def deref_str(ev, st, v):
    v = ev.content(st, v)
    return v.a[1] if v.op == 'k' else None


def names_eq(fs, arg):
    """names the argument equals on this path"""
    out = []
    for c, t in fs:
        if t and c.op == 'eq':
            for x, y in (c.a, c.a[::-1]):
                if (x is arg or (x.op == 'at' and x.a[0] is arg)):
                    if y.op == 'ref' and y.a[1].op == 'cst':
                        y = y.a[1].a[0]
                    if y.op == 'k':
                        out.append(y.a[1])
    return out


def table(P, f, argix=1):
    """{name: (value, ev, st)} over every Some-returning path, plus whether any path is unguarded"""
    ev = Ev(P)
    arg = mk('arg', f.lname(argix + 1) or 'a%d' % argix)
    v, st = ev.run(f)
    out = {}
    bad = []
    for x, fs in alts(v):
        if x.op == 'adt' and x.a[1] == 'None':
            continue
        n = names_eq(fs, arg)
        if x.op != 'adt' or len(n) != 1 or n[0] in out:
            bad.append(show(x, 4))
            continue
        out[n[0]] = x.a[2][0][1]
    return out, bad, ev, st


def check(P, R):
    D = Defs()
    TG = {}
    from .c12 import TG as TGP
    for s in sorted(list(D.structs) + list(D.bitfields)):
        if s in D.structs:
            fields = [(f.matcher, f.rust, {k: f.flags[k] for k in ('cache_only', 'non_cached', 'read_only')}, {camel(g) for g in D.allowed(f)} if f.groups is not None else None)
                      for f in D.fields(s) if f.kind != 'pad' and not f.flags['exclude']]
        else:
            fields = [(matcher(n), rustname(n), {k: fl[k] for k in ('cache_only', 'non_cached', 'read_only')}, None) for n, i, fl in D.options(D.bitfields[s]) if not fl['exclude']]
        m = {k: P.fns.get('<%s%s as %s>::%s' % (S, s, DTD, k)) for k in ('fields', 'get_field', 'get_field_mut', 'get_metadata_for_field', 'data_type', 'as_any', 'as_any_mut', 'name_of_field_from_ptr')}
        if any(m[k] is None for k in m if k != 'name_of_field_from_ptr'):
            R.viol('missing:' + s, 'no by-name access for %s' % s)
            continue
        R.ob('structures and flag sets')
        for f in m.values():
            if f is not None:
                R.fn(f)
        ev = Ev(P)
        v, st = ev.run(m['fields'])
        lst = ev.content(st, v)
        got = [deref_str(ev, st, x) for x in lst.a[0]] if lst.op == 'arr' else None
        R.check(got == [f[0] for f in fields], 'fields:' + s, '%s lists the fields %s, the definitions %s' % (s, got, [f[0] for f in fields]), where(m['fields']))
        for k, mut in (('get_field', False), ('get_field_mut', True)):
            t, bad, ev, st = table(P, m[k])
            R.check(not bad, '%s:%s' % (k, s), '%s of %s can return %s for an unknown name' % (k, s, bad[:2]), where(m[k]))
            R.check(set(t) == {f[0] for f in fields}, '%s-names:%s' % (k, s), '%s of %s answers to %s' % (k, s, sorted(set(t) ^ {f[0] for f in fields})), where(m[k]))
            for n, r, fl, al in fields:
                R.ob('names')
                if n in t:
                    R.check(t[n] is mk('ref', mut, SELF, (r,)), '%s:%s:%s' % (k, s, n), 'the name %r of %s leads to %s' % (n, s, show(t[n], 4)), where(m[k]))
        t, bad, ev, st = table(P, m['get_metadata_for_field'])
        R.check(not bad and set(t) == {f[0] for f in fields}, 'meta:' + s, 'attributes of %s exist for %s' % (s, sorted(set(t) ^ {f[0] for f in fields})), where(m['get_metadata_for_field']))
        for n, r, fl, al in fields:
            if n not in t:
                continue
            R.ob('attributes', 4)
            for k, b in fl.items():
                R.check(ev.project(t[n], k) is K(b), 'meta:%s:%s:%s' % (s, n, k), 'field %s of %s is reported as %s=%s' % (n, s, k, show(ev.project(t[n], k), 2)), where(m['get_metadata_for_field']))
            a = ev.project(t[n], 'allowed_references')
            if al is None:
                g = None if a is NONE else '?'
            else:
                g = ev.content(st, a.a[2][0][1]) if a.op == 'adt' and a.a[1] == 'Some' else None
                g = {x.a[1] for x in g.a[0]} if g is not None and g.op == 'arr' else '?'
            R.check(g == al, 'refs:%s:%s' % (s, n), 'references of field %s of %s may have the groups %s, the definitions allow %s' % (n, s, g if g == '?' or g is None else sorted(g), al and sorted(al)), where(m['get_metadata_for_field']))
        v, _ = Ev(P).run(m['data_type'])
        R.check(v is not None and v.op == 'adt' and v.a[1] == 'Block', 'dtype:' + s, '%s does not present itself as a block of fields' % s, where(m['data_type']))
        for k in ('as_any', 'as_any_mut'):
            v, _ = Ev(P).run(m[k])
            R.check(v is SELF, '%s:%s' % (k, s), '%s of %s does not give the object itself' % (k, s), where(m[k]))
        f = m['name_of_field_from_ptr']
        if f is not None and s in D.structs:
            ev = Ev(P)
            v, st = ev.run(f)
            arg = mk('arg', f.lname(2) or 'a1')
            for x, fs in (alts(v) if v is not None else ()):
                fs = fs + tuple(st.facts.items())
                nm = deref_str(ev, st, x)
                ptr = [y for c, tt in fs if tt and c.op == 'eq' for y in c.a if y.op == 'ref' and arg in c.a]
                R.ob('names by address')
                R.check(ptr == [mk('ref', False, SELF, (nm,))], 'ptr:%s:%s' % (s, nm), 'the address of %s is given the name %s in %s' % ([show(y, 3) for y in ptr], nm, s), where(f))
    for n in sorted(D.enums):
        m = {k: P.fns.get('<%s%s as %s>::%s' % (S, n, DTD, k)) for k in ('data_type', 'as_enum', 'as_enum_mut', 'as_any', 'as_any_mut')}
        R.ob('enums')
        for k, f in m.items():
            if f is None:
                R.viol('missing:' + n, 'no by-name access for enum %s' % n)
                continue
            R.fn(f)
            v, _ = Ev(P).run(f)
            want = {'data_type': lambda v: v.op == 'adt' and v.a[1] == 'Enum', 'as_enum': lambda v: v is some(SELF), 'as_enum_mut': lambda v: v is some(SELF)}.get(k, lambda v: v is SELF)
            R.check(v is not None and want(v), '%s:%s' % (k, n), '%s of enum %s gives %s' % (k, n, show(v, 4)), where(f))
    enum_set(P, R)
    arrays(P, R)
    R.floor('names', 7000)
    R.floor('structures and flag sets', 600)
    R.floor('names by address', 2500)


def enum_set(P, R):
    f = P.fns.get('<T as %sDynamicEnum>::set_enum_string_value' % DYN)
    R.ob('enum assignment by name')
    if f is None:
        R.viol('enumset', 'assignment of enums by name was not found')
        return
    R.fn(f)
    ev = StoreEv(P)
    v, st = ev.run(f)
    arg = mk('arg', f.lname(2) or 'a1')
    calls = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method == 'from_str']
    good = len(calls) == 1 and arg in (calls[0].args[0], calls[0].cont[0])
    if good:
        call = calls[0].val
        isok = mk('isv', call, 'Some')
        sts = [s for s in ev.stores if s[0] is SELF]
        good = len(sts) == 1 and sts[0][1] == () and sts[0][2] is ev.project(call, 'Some.0')
        for x, fs in alts(v):
            good = good and x.op == 'adt' and ((isok, x.a[1] == 'Ok') in fs)
    R.check(good, 'enumset', 'assigning an enum by name does not store exactly the value of that name, or accepts an unknown name', where(f))
    g = P.fns.get('<T as %sDynamicEnum>::get_enum_string_value' % DYN)
    ev = Ev(P)
    v, st = ev.run(g) if g else (None, None)
    R.check(v is not None and v.op == 'call' and v.a[0].endswith('::to_str'), 'enumget', 'reading an enum by name does not use its name table', where(g) if g else '')


def arrays(P, R):
    """index accessors"""
    for p, f in sorted(P.fns.items()):
        if f.trait != ARRT or f.n not in ('get_at_index', 'get_at_index_mut'):
            continue
        R.fn(f)
        R.ob('index accessors')
        st_ = short(f.selfty)
        mut = f.n.endswith('mut')
        ev = Ev(P)
        v, st = ev.run(f)
        ix = mk('arg', f.lname(2) or 'a1')
        lf = P.fns.get(p.rsplit('::', 1)[0] + '::len')
        panics = [e for e in ev.events.values() if e.kind in ('assert', 'panic')]
        R.check(not panics, 'index-panic:%s:%s' % (st_, f.n), 'indexing %s out of range panics instead of giving nothing' % st_, where(f))
        if st_.startswith('Bounds'):
            got = {}
            for x, fs in alts(v):
                if x.a[1] == 'Some':
                    k = [-lin_parts(c.a[0])[0] * lin_parts(c.a[0])[1].get(ix, 0) for c, t in fs if t and c.op == 'eq0']
                    got[k[0] if len(k) == 1 else None] = x.a[2][0][1]
            R.check(got == {0: mk('ref', mut, SELF, ('lower',)), 1: mk('ref', mut, SELF, ('upper',))}, 'index:%s:%s' % (st_, f.n), 'the bounds are indexed as %s' % {k: show(x) for k, x in got.items()}, where(f))
            n, _ = Ev(P).run(lf) if lf else (None, None)
            R.check(n is K(2), 'len:' + st_, 'the number of bounds is %s' % (n and show(n)), where(f))
            continue
        path = ('items',) if st_.startswith('Reflexive') else ()
        want = mk('ref', mut, SELF, path + (mk('ix', ix),))
        some_, none_ = [], []
        for x, fs in alts(v):
            if x.op == 'adt' and x.a[1] == 'Some':
                some_.append((x.a[2][0][1], fs))
            elif x.op == 'adt' and x.a[1] == 'None':
                none_.append(fs)
            else:
                some_.append((x, fs))
        base = SELF
        v0 = ev.load(State(), SELF, path)
        ln = ev.len(v0)
        good = bool(some_) and bool(none_) and all(x is want and (lt(ix, ln), True) in fs for x, fs in some_) and all((lt(ix, ln), False) in fs or (lnot(lt(ix, ln)), True) in fs for fs in none_)
        R.check(good, 'index:%s:%s' % (st_, f.n), 'indexing %s gives %s' % (st_, [(show(x, 4), [show(c, 4) for c, t in fs]) for x, fs in some_]), where(f))
        n, _ = Ev(P).run(lf) if lf else (None, None)
        R.check(n is not None and (n is ln or st_.startswith('[')), 'len:' + st_, 'the length of %s is %s' % (st_, n and show(n)), where(f))
    R.floor('index accessors', 6)
