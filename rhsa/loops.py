"""Induction, trip counts and accumulation of loops, read off the loop values the evaluator leaves behind."""
from .ev import LPHI, LFWD
from .layout import alts
from .val import *


def entries(x):
    """(values on entry, values on the back edge) of a loop value"""
    init, back = [], []
    fwd = LFWD.get(x, ())
    for ek, v in LPHI.get(x, {}).items():
        (init if ek in fwd else back).append(v)
    return init, back


def affine(x):
    """x as (value in the first iteration, difference between consecutive iterations), or None"""
    if x.op == 'lphi':
        init, back = entries(x)
        if len(init) == 1 and len(back) >= 1:
            ss = {sub(b, x) for b in back}
            if len(ss) == 1:
                s = ss.pop()
                if not any(w.op in ('lphi', 'elem') for w in walk(s)):
                    return init[0], s
        return None
    c, d = lin_parts(x)
    var = [(t, k) for t, k in d.items() if any(w.op in ('lphi', 'elem', 'elemix', 'elemn') for w in walk(t))]
    if len(var) != 1:
        return None
    t, k = var[0]
    rest = add(x, scale(t, -k))
    if t.op == 'lphi':
        a = affine(t)
        return None if a is None else (add(rest, scale(a[0], k)), scale(a[1], k))
    if t.op in ('elem', 'elemix', 'elemn'):
        lo = start_of(t)
        return None if lo is None else (add(rest, scale(lo, k)), K(k))
    if t.op == 'mul':
        fs = list(t.a[0]) if isinstance(t.a[0], tuple) else list(t.a)
        el = [f for f in fs if any(w.op in ('lphi', 'elem', 'elemix', 'elemn') for w in walk(f))]
        if len(el) == 1 and len(fs) == 2 and k == 1:
            o = fs[1 - fs.index(el[0])]
            a = affine(el[0])
            if a is not None and iskint(a[1]):
                return add(rest, mul(a[0], o)), scale(o, a[1].a[1])
    return None


def start_of(t):
    it = t.a[0]
    if it.op == 'adt' and it.a[0].endswith('Range'):
        d = dict(it.a[2])
        return d['start']
    if t.op in ('elemix', 'elemn'):
        return K(0)
    return None


ORDERED = ('enumerate', 'map', 'zip', 'cloned', 'copied', 'inspect', 'peekable', 'fuse')


def source(it):
    """innermost source of an iterator when every element is visited once, in order"""
    while it is not None and it.op == 'it':
        if it.a[0] in ('refs', 'vals', 'rangei'):
            return it
        if it.a[0] not in ORDERED:
            return None
        it = it.a[1]
    return it


def covers(ev, facts, n, coll=None):
    """the facts say the current iteration is one of a loop running over exactly 0..n (or over all elements of a collection of n elements)"""
    for c, t in (facts.items() if hasattr(facts, "items") else facts):
        if not t or c.op != 'le0':
            continue
        for x in lin_parts(c.a[0])[1]:
            if x.op in ('elem', 'elemix'):
                it = ev.iters.get(x.a[1])
                src = source(it) if it is not None else None
                if src is None:
                    continue
                if src.op == 'adt' and src.a[0].endswith('Range'):
                    d = dict(src.a[2])
                    if d['start'] is K(0) and d['end'] is n:
                        return x
                elif x.op == 'elemix' and c is lt(x, n):
                    return x
            elif x.op == 'lphi' and c is lt(x, n):
                a = affine(x)
                if a is not None and a[0] is K(0) and a[1] is K(1):
                    return x
    return None


def accumulated(ev, v):
    """the element appended per iteration to a list that starts empty, or None"""
    if v.op == 'fld' and v.a[1] == 'Ok.0' and v.a[0].op == 'collected':
        return ev.project(v.a[0].a[1], 'Ok.0')
    if v.op == 'collected':
        return v.a[1]
    path = ()
    x = v
    while x.op == 'fld':
        path = (x.a[1],) + path
        x = x.a[0]
    if x.op != 'lphi':
        return None
    def pr(y):
        for p in path:
            y = ev.project(y, p)
        return y
    init, back = entries(x)
    out = None
    for i in init:
        i = pr(i)
        if not (i.op == 'arr' and not i.a[0]):
            return None
    for b in back:
        b = pr(b)
        if b.op == 'vecfrom' and b.a[0].op == 'pushed' and b.a[1] is add(ev.len(v), K(1)):
            b = b.a[0]
        if b.op != 'pushed' or b.a[0] is not v or (out is not None and out is not b.a[1]):
            return None
        out = b.a[1]
    return out


def exhausted(facts, x):
    """the facts say that the loop whose current element is x has run out of elements (rather than being left early)"""
    for c, t in (facts.items() if hasattr(facts, 'items') else facts):
        if c.op == 'isv' and ((c.a[1] == 'None' and t) or (c.a[1] == 'Some' and not t)):
            if any(x in set(walk(y)) for y, _ in alts(c.a[0])):
                return True
        if x.op == 'lphi' and c.op == 'le0' and x in lin_parts(c.a[0])[1]:
            d = lin_parts(c.a[0])[1][x]
            if (d < 0) == bool(t):
                return True
        if x.op == 'lphi' and c.op == 'eq0' and t and x in lin_parts(c.a[0])[1]:
            return True
    return False
