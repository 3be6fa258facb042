"""Decision tables: the effect of a function under every valuation of the comparisons it makes.

A function is abstractly evaluated once for every consistent truth assignment of the comparison atoms its branches test; the result does not depend on
how the conditions are nested, ordered or spelled."""
from .layout import *

OBJ = mk('arg', 'obj')
OPAQUE = {'fix_decimal_rounding', 'default'}


class AtomEv(StoreEv):
    """as_any()/downcast() of the argument yields the symbolic object OBJ; its type is recorded."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        op = self.opaque
        self.opaque = lambda c: c.method in OPAQUE or (op(c) if callable(op) else c.path in op)
        self.atoms = []
        self.types = set()
        self.objstores = []

    def on_store(self, fr, b, i, root, path, v, st, line):
        super().on_store(fr, b, i, root, path, v, st, line)
        if root.op != 'loc':
            self.objstores.append((root, path, v, line))

    def pre(self, fr, st, c, args, b, line):
        if c.method in ('as_any', 'as_any_mut'):
            return args[0], st
        if c.method in ('downcast_mut', 'downcast_ref') and c.args:
            self.types.add(short(c.args[-1]))
            return some(OBJ), st
        if c.path.endswith('object::downcast_base_object_mut'):
            self.types.add('Object')
            return some(OBJ), st
        return super().pre(fr, st, c, args, b, line)

    def switch(self, fr, b, st, t):
        v = self.simp(st, self.operand(fr, st, t[1]))
        self.note(st, v)
        if not (len(t[2]) == 1 and t[2][0][0] == 0) and v.op not in ('disc', 'k', 'phi'):
            for val, _ in t[2]:
                self.note(st, self.inteq(v, val))
        return super().switch(fr, b, st, t)

    def note(self, st, v):
        if v.op == 'not':
            return self.note(st, v.a[0])
        if v.op in ('and', 'or'):
            for x in v.a[0]:
                self.note(st, x)
            return
        if v.op in ('k', 'phi', 'lphi', 'disc', 'isv'):
            return
        if v not in st.facts and v not in self.atoms:
            self.atoms.append(v)


def parts(a):
    """components of a structural equality, or None"""
    if a.op == 'eq' and all(x.op == 'adt' and x.a[2] for x in a.a) and a.a[0].a[1] == a.a[1].a[1]:
        return [mk('feq', *sorted((x[1], y[1]), key=lambda t: t.i)) for x, y in zip(a.a[0].a[2], a.a[1].a[2])]
    return None


def render(v, obj=OBJ):
    """readable path of a value inside the object"""
    if v.op == 'at' or v.op == 'content':
        return render(v.a[0]) if v.a[0].op != 'arg' else ''
    if v is obj or v.op == 'arg':
        return ''
    if v.op == 'fld':
        return (render(v.a[0]) + '.' + str(v.a[1])).strip('.')
    if v.op == 'lphi' and isinstance(v.a[2], V) and v.a[2].op in ('arg', 'at'):
        # an element of a collection at the start of its own iteration: iterations visit distinct elements
        return (render(v.a[2]) + ''.join('.' + e if isinstance(e, str) else '[]' for e in v.a[3])).strip('.')
    if v.op == 'idx':
        return render(v.a[0]) + '[]'
    if v.op == 'ref':
        return (render(v.a[1]) + ''.join('.' + e if isinstance(e, str) else '[]' for e in v.a[2])).strip('.')
    if v.op == 'k':
        return repr(v.a[1])
    return show(v, 5)


def canon(a):
    """(left, right) of an equality atom; None for others"""
    if a.op in ('feq', 'eq'):
        l, r = sorted((a.a[0], a.a[1]), key=lambda x: x.op == 'k')
        l, r = render(l), render(r)
        return (l, r) if r in ('0',) or a.a[0].op == 'k' or a.a[1].op == 'k' else tuple(sorted((l, r)))
    if a.op == 'eq0':
        c, d = lin_parts(a.a[0])
        if len(d) == 1:
            (x, k), = d.items()
            if -c % k == 0:
                return (render(x), repr(-c // k))
        if len(d) == 2 and c == 0 and sorted(d.values()) == [-1, 1]:
            return tuple(sorted(render(x) for x in d))
    return (show(a, 8), 'true')


def consistent(F, a, b):
    """x == c1 and x == c2 cannot both hold"""
    if not b:
        return True
    l, r = canon(a)
    for f, t in F:
        if t:
            fl, fr_ = canon(f)
            if fl == l and fr_ != r and re.fullmatch(r'-?\d+', fr_) and re.fullmatch(r'-?\d+', r):
                return False
    return True


def table(P, fn, args=None, want=None, limit=3000, mkev=AtomEv, sub=None):
    """[(facts tuple, ev, ret, st)] over all consistent valuations. `want(atom)`: which atoms to split on."""
    out = []
    work = [((), ())]
    while work:
        F, DF = work.pop()
        ev = mkev(P)
        ret, st = ev.run(fn, args=args, facts=F + DF, sub=sub)
        known = {f for f, _ in F + DF}
        todo = [a for a in ev.atoms if a not in known and lnot(a) not in known and (want is None or want(a))]
        if not todo:
            out.append((F, ev, ret, st))
            continue
        a = todo[0]
        ps = parts(a)
        if ps is None:
            # an atom that says the same as a decided one
            same = [t for f, t in F if canon(f) == canon(a)]
            if same:
                work.append((F, DF + ((a, same[0]),)))
                continue
            for b in (False, True):
                if consistent(F, a, b):
                    work.append((F + ((a, b),), DF))
        else:
            kn = {canon(f): t for f, t in F}
            val = True
            nxt = None
            for p in ps:
                if p.a[0] is p.a[1]:
                    continue
                t = kn.get(canon(p))
                if t is None:
                    t2 = [False for f, tt in F if tt and not consistent(F, p, True)]
                    if t2:
                        val = False
                        break
                    nxt = nxt or p
                elif not t:
                    val = False
                    break
            if val and nxt is not None:
                for b in (False, True):
                    if consistent(F, nxt, b):
                        work.append((F + ((nxt, b),), DF))
            else:
                work.append((F, DF + ((a, val),)))
        if len(out) + len(work) > limit:
            raise LayoutError('decision table of %s is too large' % fn.p)
    return out


def effects(ev, st):
    """{path: value} of the object after the run: the last value stored in every place, rendered"""
    eff = {}
    for root, path, v, line in ev.objstores:
        k = render(mk('ref', True, root, path))
        eff[k] = v
    return eff
