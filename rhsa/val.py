"""Hash-consed value terms and a small linear normal form for integers."""


class V:
    __slots__ = ('op', 'a', 'i')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op, a)
    v = _tab.get(k)
    if v is None:
        v = V()
        v.op = op
        v.a = a
        _n[0] += 1
        v.i = _n[0]
        _tab[k] = v
    return v


def K(x):
    # keep True and 1 distinct
    return mk('k', type(x).__name__, x)


def isk(v):
    return v.op == 'k'


def kval(v):
    return v.a[1]


def iskint(v):
    return v.op == 'k' and v.a[0] == 'int'


TRUE = K(True)
FALSE = K(False)
UNIT = mk('tup', ())


def tup(*xs):
    return mk('tup', tuple(xs))


def adt(path, variant, fields):
    """fields: iterable of (name, V)"""
    return mk('adt', path, variant, tuple(fields))


RES = 'core::result::Result'
OPT = 'core::option::Option'


def ok(v):
    return adt(RES, 'Ok', [('0', v)])


def err(v):
    return adt(RES, 'Err', [('0', v)])


def some(v):
    return adt(OPT, 'Some', [('0', v)])


NONE = adt(OPT, 'None', [])


# ---------------------------------------------------------------- linear
def lin_parts(v):
    """(const, {atom: coef})"""
    if v.op == 'k' and v.a[0] == 'int':
        return v.a[1], {}
    if v.op == 'lin':
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def mklin(c, d):
    d = {k: x for k, x in d.items() if x}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda t: t[0].i)))


def add(a, b, s=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, x in db.items():
        d[k] = d.get(k, 0) + s * x
    return mklin(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = lin_parts(a)
    return mklin(c * n, {k: x * n for k, x in d.items()})


def mul(a, b):
    if iskint(a):
        return scale(b, a.a[1])
    if iskint(b):
        return scale(a, b.a[1])
    if a.i > b.i:
        a, b = b, a
    return mk('mul', a, b)


def le0(v):
    """boolean: v <= 0"""
    if iskint(v):
        return K(v.a[1] <= 0)
    c, d = lin_parts(v)
    # gcd normalisation
    from math import gcd
    g = 0
    for x in d.values():
        g = gcd(g, x)
    if g > 1:
        # sum <= -c  ->  sum/g <= floor(-c/g)
        d = {k: x // g for k, x in d.items()}
        c = -((-c) // g)
    return mk('le0', mklin(c, d))


def eq0(v):
    if iskint(v):
        return K(v.a[1] == 0)
    c, d = lin_parts(v)
    it = sorted(d.items(), key=lambda t: t[0].i)
    if it[0][1] < 0:
        c, d = -c, {k: -x for k, x in d.items()}
    return mk('eq0', mklin(c, d))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'k' and b.op == 'k':
        return K(a.a == b.a)
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        if len(a.a[2]) == 1:
            return eq(a.a[2][0][1], b.a[2][0][1])
    if a.op == 'adt' and not a.a[2]:
        return mk('isv', b, a.a[1])
    if b.op == 'adt' and not b.a[2]:
        return mk('isv', a, b.a[1])
    for x, y in ((a, b), (b, a)):
        if x is TRUE:
            return y
        if x is FALSE:
            return lnot(y)
    if a.i > b.i:
        a, b = b, a
    return mk('eq', a, b)


def lnot(v):
    if v.op == 'k':
        return K(not v.a[1])
    if v.op == 'not':
        return v.a[0]
    if v.op == 'le0':
        # not (x<=0) == x>=1 == 1-x <= 0
        return le0(add(K(1), v.a[0], -1))
    return mk('not', v)


def subst(v, m):
    """v with the values m maps replaced"""
    memo = dict(m)

    def s(x):
        if isinstance(x, tuple):
            return tuple(s(y) for y in x)
        if not isinstance(x, V):
            return x
        r = memo.get(x)
        if r is None:
            a = s(x.a)
            if a == x.a:
                r = x
            elif x.op == 'lin':
                r = K(x.a[0])
                for t, n in a[1]:
                    r = add(r, scale(t, n))
            elif x.op in ('le0', 'eq0', 'not', 'eq'):
                r = {'le0': le0, 'eq0': eq0, 'not': lnot, 'eq': eq}[x.op](*a)
            else:
                r = mk(x.op, *a)
            memo[x] = r
        return r
    return s(v)


def lt(a, b):
    return le0(add(add(a, b, -1), K(1)))


def le(a, b):
    return le0(add(a, b, -1))


def show(v, depth=6):
    if not isinstance(v, V):
        return repr(v)
    if depth == 0:
        return '…'
    s = lambda x: show(x, depth - 1)
    o, a = v.op, v.a
    if o == 'k':
        return repr(a[1])
    if o == 'lin':
        out = []
        for k, x in a[1]:
            out.append(('%s' if x == 1 else '-%s' if x == -1 else '%d*%%s' % x) % s(k))
        if a[0]:
            out.append(str(a[0]))
        return '(' + ' + '.join(out) + ')'
    if o == 'adt':
        nm = a[0].rsplit('::', 1)[-1]
        if nm != a[1]:
            nm += '::' + a[1]
        return nm + ('{' + ', '.join('%s: %s' % (k, s(x)) for k, x in a[2]) + '}' if a[2] else '')
    if o in ('tup', 'arr'):
        return ('(%s)' if o == 'tup' else '[%s]') % ', '.join(s(x) for x in a[0])
    if o == 'arg':
        return str(a[0])
    if o == 'at':
        return '*' + s(a[0])
    if o == 'fld':
        return s(a[0]) + '.' + str(a[1])
    if o == 'ref':
        return '&' + ('mut ' if a[0] else '') + s(a[1]) + ''.join('.' + (s(e) if isinstance(e, V) else e) for e in a[2])
    if o == 'loc':
        return '_%s@%s' % (a[1], a[0])
    if o == 'call':
        return a[0].rsplit('::', 1)[-1] + '(' + ', '.join(s(x) for x in a[2]) + ')' + ('#%s' % (a[3],) if a[3] is not None else '')
    if o == 'len':
        return 'len(%s)' % s(a[0])
    if o == 'le0':
        return s(a[0]) + ' <= 0'
    if o == 'eq0':
        return s(a[0]) + ' == 0'
    if o == 'isv':
        return s(a[0]) + ' is ' + str(a[1])
    if o == 'not':
        return '!' + s(a[0])
    if o == 'phi':
        return 'phi[' + ' | '.join(s(x) for x, _, _ in PHI.get(v, [])) + ']'
    return o + '(' + ', '.join(s(x) if isinstance(x, V) else (x if isinstance(x, str) else '(' + ', '.join(show(y, depth - 1) if isinstance(y, V) else str(y) for y in x) + ')' if isinstance(x, tuple) else str(x)) for x in a) + ')'


# phi -> list of (value, frozenset of (factV,bool), edgeV)
PHI = {}


def mkphi(join, alts, kind='phi'):
    """join: identity of the merge; alts: list of (V, frozenset((fact,bool)), edgeV)."""
    vals = {x for x, _, _ in alts}
    if len(vals) == 1:
        return alts[0][0]
    v = mk('phi', join, tuple((x, f, e) for x, f, e in alts))
    PHI[v] = list(alts)
    return v


def walk(v, seen=None):
    """All sub-terms of v (including v)."""
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'phi':
            st.extend(y for y, _, _ in PHI[x])
        else:
            st.extend(x.a)
