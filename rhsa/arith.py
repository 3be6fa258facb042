"""A decision procedure for the small integer arguments the rules need: does a comparison follow from what is known at a point?

Everything known is brought to linear inequalities over atoms (type ranges of the operands, lengths that cannot be negative, remainders and
quotients, loop counters that only grow); the negation of the goal is added and the atoms are eliminated one after the other."""
import re

from .ev import INTW, UNSIGNED
from .layout import alts
from .loops import affine, entries
from .val import *

LIMIT = 220


def trange(ty):
    w = INTW[ty]
    return (0, (1 << w) - 1) if ty in UNSIGNED else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


class Arith:
    def __init__(self, ev):
        self.ev = ev
        self.memo = {}
        self.inv = None

    # -------------------------------------------------------- what is known of an atom by itself
    def bounds(self, x, depth=3):
        """inequalities (terms <= 0) true of atom x whatever the path"""
        k = (x, depth)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = []
        out = []
        ty = self.ev.ty.get(x)
        lo = hi = None
        if ty is not None:
            lo, hi = trange(ty)
        if x.op in ('len',):
            n = self.fixedlen(x.a[0])
            if n is not None:
                self.memo[k] = [sub(K(n), x), sub(x, K(n))]
                return self.memo[k]
            out += self.grown(x, depth)
            y = lossy(x.a[0]) or cstr(x.a[0])
            if y is not None:
                out.append(add(sub(x, self.ev.len(y)), K(1)))
            lo = 0 if lo is None else max(lo, 0)
            hi = (1 << 63) - 1
        if x.op in ('count', 'elemix', 'elemn', 'iters'):
            lo = 0 if lo is None else max(lo, 0)
        if x.op == 'iters':
            for site in self.sites(x.a):
                it = self.ev.iters[site]
                if it.op == 'adt' and it.a[0].endswith('Range'):
                    e = sub(sub(mk('elem', it, site), dict(it.a[2])['start']), x)
                    out += [e, scale(e, -1)]
                if it.op == 'it' and it.a[0] == 'refs':
                    e = sub(mk('elemix', it, site), x)
                    out += [e, scale(e, -1)]
                n = self.ev.itercount.get(site)
                if n is not None:
                    out.append(sub(x, n))
        if x.op == 'cast' and isinstance(x.a[1], str) and '>' in x.a[1]:
            f, t = x.a[1].rsplit('>', 1)
            if t in INTW:
                l, h = trange(t)
                lo = l if lo is None else max(lo, l)
                hi = h if hi is None else min(hi, h)
        if x.op == 'cast' and x.a[1] == 'int':
            lo, hi = 0, 1
        if x.op == 'bin' and x.a[0] == 'Rem' and iskint(x.a[2]) and kval(x.a[2]) > 0 and self.nonneg(x.a[1], depth):
            lo, hi = 0, kval(x.a[2]) - 1
        if x.op == 'bin' and x.a[0] == 'Rem' and self.nonneg(x.a[1], depth) and self.nonneg(x.a[2], depth):
            lo = 0
            out.append(sub(x, x.a[1]))
        if x.op == 'bin' and x.a[0] == 'Div' and iskint(x.a[2]) and kval(x.a[2]) > 0 and self.nonneg(x.a[1], depth):
            k2 = kval(x.a[2])
            lo = 0
            out.append(sub(scale(x, k2), x.a[1]))
            out.append(sub(sub(x.a[1], scale(x, k2)), K(k2 - 1)))
        elif x.op == 'bin' and x.a[0] == 'Div' and self.nonneg(x.a[1], depth) and self.nonneg(x.a[2], depth):
            lo = 0
            out.append(sub(x, x.a[1]))
        if x.op == 'bin' and x.a[0] == 'Shr' and self.nonneg(x.a[1], depth):
            lo = 0
            if iskint(x.a[2]):
                k2 = 1 << kval(x.a[2])
                out.append(sub(scale(x, k2), x.a[1]))
                out.append(sub(sub(x.a[1], scale(x, k2)), K(k2 - 1)))
            else:
                out.append(sub(x, x.a[1]))
        if x.op == 'bin' and x.a[0] == 'BitAnd':
            for y in x.a[1:]:
                if iskint(y) and kval(y) >= 0:
                    lo = 0
                    hi = kval(y) if hi is None else min(hi, kval(y))
                elif self.nonneg(y, depth):
                    lo = 0
                    out.append(sub(x, y))
        if x.op == 'mul' and depth > 0 and all(self.nonneg(y, depth - 1) for y in x.a):
            lo = 0 if lo is None else max(lo, 0)
        if x.op == 'lphi' and depth > 0:
            a = affine(x)
            if a is not None:
                s = a[1]
                # counted loop: the value is tied to the counter
                for site, it in self.ev.iters.items():
                    if site[:2] == x.a[:2] and it.op == 'adt' and it.a[0].endswith('Range') and iskint(s):
                        e = sub(add(a[0], scale(sub(mk('elem', it, site), dict(it.a[2])['start']), kval(s))), x)
                        out += [e, scale(e, -1)]
                if iskint(s) and self.sites(x.a[:2]):
                    e = sub(add(a[0], scale(mk('iters', x.a[0], x.a[1]), kval(s))), x)
                    out += [e, scale(e, -1)]
                if iskint(s) and kval(s) >= 0 or not iskint(s) and self.nonneg(s, depth - 1):
                    out.append(sub(a[0], x))
                elif iskint(s) and kval(s) <= 0:
                    out.append(sub(x, a[0]))
        if lo is not None:
            out.append(sub(K(lo), x))
        if hi is not None:
            out.append(sub(x, K(hi)))
        self.memo[k] = out
        return out

    def sites(self, hdr):
        """where the iterator driving the loop with this header is asked for its next element"""
        out = []
        for site in self.ev.iters:
            s = site[:2]
            for _ in range(4):
                if s == tuple(hdr):
                    if self.alone(site):
                        out.append(site)
                    break
                s = self.caller(s)
                if s is None:
                    break
        return out

    def alone(self, site):
        """no second place in the same loop takes elements from the same iterator"""
        for o in self.ev.iters:
            if len(o) == 2 and o != site and o[0] == site[0] and self.ev.iters[o] is self.ev.iters[site]:
                self.caller(site)
                k = self.inv.get(site[0])
                f = self.ev.P.fns.get(k[1][1]) if k else None
                if f is None or f.dominates(site[1], o[1]) and reaches(f, o[1], site[1]):
                    return False
        return True

    def caller(self, s):
        if self.inv is None or len(self.inv) != len(self.ev.frames):
            self.inv = {i: k for k, i in self.ev.frames.items()}
        if s[1] != 0:
            return None
        k = self.inv.get(s[0])
        return (k[0], k[1][0]) if k and k[0] is not None else None

    def fixedlen(self, v):
        """length of a value whose type is an array"""
        if v in self.ev.arrlen:
            return self.ev.arrlen[v]
        if v.op == 'call' and v.a[0].rsplit('::', 1)[-1] in ('assume_init', 'uninit', 'zeroed') and v.a[1]:
            m = re.match(r'\[.*; (\d+)(?:_usize)?\]$', v.a[1][0])
            if m:
                return int(m.group(1))
        if v.op == 'fld' and v.a[0].op == 'call' and v.a[0].a[0].endswith('::default') and v.a[0].a[1]:
            a = self.ev.P.adts.get(v.a[0].a[1][0])
            if a and a['kind'] == 'struct':
                t = next((q[1] for q in a['variants'][0][2] if q[0] == v.a[1]), '')
                m = re.match(r'\[\w+; (\d+)', t)
                if m:
                    return int(m.group(1))
        return None

    def grown(self, x, depth):
        """length of what a loop adds to, and of what was appended to"""
        v = x.a[0]
        out = []
        if v.op == 'lphi' and depth > 0:
            init, back = entries(v)
            if len(init) == 1 and back:
                ds = {sub(n, x) for y in back for n in self.lens(y)}
                if len(ds) == 1:
                    d = ds.pop()
                    if iskint(d):
                        e = sub(add(self.ev.len(init[0]), scale(mk('iters', v.a[0], v.a[1]), kval(d))), x)
                        out += [e, scale(e, -1)]
        if v.op == 'mut':
            for e in self.ev.events.values():
                if e.kind == 'call' and (e.frame, e.bb) == v.a[:2] and e.callee.method in ('extend_from_slice', 'push_str') and len(e.args) == 2 and e.cont[0] is not None:
                    n = self.ev.len(e.cont[1]) if e.cont[1] is not None else mk('len', mk('at', e.args[1])) if e.args[1].op != 'slice' else self.ev.len(e.args[1])
                    q = sub(add(self.ev.len(e.cont[0]), n), x)
                    out += [q, scale(q, -1)]
        return out

    def lens(self, y):
        if y.op == 'phi':
            return [n for z, _ in alts(y) for n in self.lens(z)]
        return [self.ev.len(y)]

    def nonneg(self, v, depth=3):
        if iskint(v):
            return kval(v) >= 0
        if depth <= 0:
            return self.ev.ty.get(v) in UNSIGNED
        t = self.ev.ty.get(v)
        if t is not None and t in UNSIGNED or v.op in ('len', 'elemix', 'elemn'):
            return True
        if v.op == 'phi':
            return all(self.nonneg(y, depth - 1) for y, _ in alts(v))
        if v.op == 'lin':
            return v.a[0] >= 0 and all(c > 0 and self.nonneg(x, depth - 1) for x, c in v.a[1])
        return any(iskint(add(b, v)) and kval(add(b, v)) <= 0 for b in self.bounds(v, depth - 1))

    # -------------------------------------------------------- proving
    def known(self, facts):
        out = []
        for c, t in facts.items():
            self.learn(c, t, out)
        return out

    def learn(self, c, t, out, depth=0):
        if c.op == 'le0' and t:
            out.append(c.a[0])
        elif c.op == 'le0':
            out.append(sub(K(1), c.a[0]))
        elif c.op == 'eq0' and t:
            out += [c.a[0], scale(c.a[0], -1)]
        elif c.op == 'eq0':
            if self.nonneg(c.a[0], 1):
                out.append(sub(K(1), c.a[0]))
            elif self.nonneg(scale(c.a[0], -1), 1):
                out.append(add(c.a[0], K(1)))
            else:
                out.append(mk('ne', c.a[0]))
        elif c.op == 'not':
            self.learn(c.a[0], not t, out, depth)
        elif c.op == 'and' and t:
            for x in c.a[0]:
                self.learn(x, True, out, depth)
        elif c.op == 'or' and not t:
            for x in c.a[0]:
                self.learn(x, False, out, depth)
        elif c.op == 'ovf' and not t:
            b, x, y, ty = c.a
            if ty in INTW:
                r = {'Add': add, 'Sub': sub, 'Mul': mul}[b](x, y)
                lo, hi = trange(ty)
                out += [sub(K(lo), r), sub(r, K(hi))]
        elif c.op == 'phi' and depth < 3:
            left = [(y, f) for y, f in alts(c) if y is not K(not t)]
            if len(left) == 1:
                y, f = left[0]
                if y.op != 'k':
                    self.learn(y, t, out, depth + 1)
                for x, b in f:
                    self.learn(x, b, out, depth + 1)
        elif c.op == 'isv' and depth < 4:
            if c.a[1] in ('None', 'Some') and (c.a[1] == 'None') == bool(t):
                self.exhausted(c.a[0], out)
            # which alternative was taken settles the conditions under which it was chosen
            av = [(y, f) for y, f in alts(c.a[0])]
            if len(av) > 1:
                left = [f for y, f in av if not (y.op == 'adt' and (y.a[1] == c.a[1]) != bool(t))]
                if len(left) == 1:
                    for x, b in left[0]:
                        self.learn(x, b, out, depth + 1)

    def exhausted(self, v, out):
        """an iterator that had nothing more to give: the loop around it has run as often as there are elements"""
        if v.op != 'phi':
            return
        for y, _ in alts(v):
            if y.op == 'adt' and y.a[1] == 'Some':
                for site, n in self.ev.itercount.items():
                    if len(site) == 2 and v.a[0] == ('j', site[0], ('split', ('next', site[1]))):
                        s = site if self.alone(site) else None
                        while s is not None:
                            e = sub(n, mk('iters', *s))
                            out += [e, scale(e, -1)]
                            s = self.caller(s)
                return

    def prove(self, facts, goal, splits=6):
        """goal (a condition) holds whenever all the facts do"""
        if goal is TRUE:
            return True
        if goal is FALSE:
            return self.refute(self.known(facts), [], facts, splits)
        if facts.get(goal) is True:
            return True
        if goal.op == 'not' and facts.get(goal.a[0]) is False:
            return True
        if goal.op == 'and':
            return all(self.prove(facts, x, splits) for x in goal.a[0])
        if goal.op == 'le0':
            return self.refute(self.known(facts), [sub(K(1), goal.a[0])], facts, splits)
        if goal.op == 'eq0':
            return self.prove(facts, le0(goal.a[0]), splits) and self.prove(facts, le0(scale(goal.a[0], -1)), splits)
        if goal.op == 'not' and goal.a[0].op == 'eq0':
            x = goal.a[0].a[0]
            if self.prove(facts, le0(add(x, K(1))), splits) or self.prove(facts, le0(sub(K(1), x)), splits):
                return True
            return any(c.op == 'eq0' and not t and (c.a[0] is x or add(c.a[0], x) is K(0)) for c, t in facts.items())
        if goal.op == 'not' and goal.a[0].op == 'ovf':
            b, x, y, ty = goal.a[0].a
            if ty not in INTW:
                return False
            r = {'Add': add, 'Sub': sub, 'Mul': mul}[b](x, y)
            lo, hi = trange(ty)
            return self.prove(facts, le0(sub(r, K(hi))), splits) and self.prove(facts, le0(sub(K(lo), r)), splits)
        return False

    def refute(self, known, extra, facts, splits):
        """the conjunction is contradictory"""
        goal = list(extra)
        atoms = set()
        nes = [p.a[0] for p in known if p.op == 'ne']
        if K(0) in nes:
            return True
        known = [p for p in known if p.op != 'ne']
        ones = []
        for t in nes:
            if self.nonneg(t, 1):
                ones.append(sub(K(1), t))
            elif self.nonneg(scale(t, -1), 1):
                ones.append(add(t, K(1)))
        known += ones
        for g in goal:
            atoms |= set(lin_parts(g)[1])
        if not atoms:
            for g in known + nes:
                atoms |= set(lin_parts(g)[1])
        rel, pool = [], list(known)
        seen = set()
        for _ in range(4):
            new = set()
            for x in atoms - seen:
                for b in self.bounds(x):
                    rel.append(b)
                    new |= set(lin_parts(b)[1])
            seen |= atoms
            rest = []
            for p in pool:
                ps = set(lin_parts(p)[1])
                if ps & atoms or not ps:
                    rel.append(p)
                    new |= ps
                else:
                    rest.append(p)
            pool = rest
            if new <= atoms:
                break
            atoms |= new
        if contradiction(goal + rel):
            return True
        if splits > 0:
            for x in sorted(atoms, key=lambda v: -v.i):
                if x.op == 'phi':
                    av = list(alts(x))
                    if len(av) > 12:
                        continue
                    for y, fs in av:
                        k2 = [subst1(p, x, y) for p in known] + [mk('ne', subst1(t, x, y)) for t in nes]
                        for c, t in fs:
                            self.learn(c, t, k2)
                        if clash(facts, fs):
                            continue
                        if not self.refute(k2, [subst1(g, x, y) for g in goal], {**facts, **dict(fs)} if fs else facts, splits - 1):
                            return False
                    return True
            for t in nes:
                if set(lin_parts(t)[1]) & atoms:
                    k2 = known + [mk('ne', u) for u in nes if u is not t]
                    return self.refute(k2 + [add(t, K(1))], goal, facts, splits - 2) and self.refute(k2 + [sub(K(1), t)], goal, facts, splits - 2)
        return False


def clash(facts, fs):
    for c, t in fs:
        o = facts.get(c)
        if o is not None and o is not t:
            return True
        if c.op == 'edge' and t and any(d.op == 'edge' and u and d.a[0] == c.a[0] and d.a[1] != c.a[1] for d, u in facts.items()):
            return True
    return False


def reaches(f, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for y in f.succ(x):
            if y == b:
                return True
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return False


def lossy(v):
    """bytes up to whose first zero this is the text, with whatever is not text replaced by one byte each"""
    if v.op == 'at':
        v = v.a[0]
    if v.op == 'call' and v.a[0].endswith('replace') and len(v.a[2]) == 3 and v.a[2][1] in (K(65533), K('\ufffd')):
        to = v.a[2][2]
        if to.op == 'ref' and to.a[1].op == 'cst':
            to = to.a[1].a[0]
        if to.op == 'k' and to.a[0] == 'str' and len(to.a[1].encode()) <= 1:
            for x in walk(v.a[2][0]):
                if x.op == 'call' and x.a[0].endswith('to_string_lossy') and x.a[2][0].op == 'fld' and x.a[2][0].a[0].op == 'call' and x.a[2][0].a[0].a[0].endswith('from_bytes_until_nul'):
                    return x.a[2][0].a[0].a[2][0]
    return None


def cstr(v):
    """bytes in front of whose first zero this text is"""
    while v.op in ('at', 'bytesof'):
        v = v.a[0]
    if v.op == 'fld' and v.a[1] in ('Ok.0', 'Some.0'):
        v = v.a[0]
        if v.op == 'call' and v.a[0].rsplit('::', 1)[-1] in ('to_str', 'ok', 'map_err') and v.a[2]:
            return cstr(v.a[2][0]) if v.a[0].rsplit('::', 1)[-1] != 'to_str' else cstr0(v.a[2][0])
    return None


def cstr0(v):
    while v.op == 'at':
        v = v.a[0]
    if v.op == 'fld' and v.a[1] == 'Ok.0' and v.a[0].op == 'call' and v.a[0].a[0].endswith('from_bytes_until_nul'):
        return v.a[0].a[2][0]
    return None


def subst1(p, x, y):
    c, d = lin_parts(p)
    if x not in d:
        return p
    k = d.pop(x)
    return add(mklin(c, d), scale(y, k))


def contradiction(cons):
    """no numbers satisfy all of: term <= 0"""
    cs = set()
    for p in cons:
        c, d = lin_parts(p)
        if not d:
            if c > 0:
                return True
            continue
        cs.add((c, tuple(sorted(((x.i, k) for x, k in d.items())))))
    cs = simplify(cs)
    while cs:
        count = {}
        for c, d in cs:
            for x, k in d:
                p, n = count.get(x, (0, 0))
                count[x] = (p + (k > 0), n + (k < 0))
        x = min(count, key=lambda v: (count[v][0] * count[v][1] - count[v][0] - count[v][1], v))
        pos = [(c, d) for c, d in cs if dict(d).get(x, 0) > 0]
        neg = [(c, d) for c, d in cs if dict(d).get(x, 0) < 0]
        rest = {(c, d) for c, d in cs if x not in dict(d)}
        for c1, d1 in pos:
            e1 = dict(d1)
            for c2, d2 in neg:
                e2 = dict(d2)
                a, b = -e2[x], e1[x]
                e = {}
                for y, k in e1.items():
                    e[y] = e.get(y, 0) + a * k
                for y, k in e2.items():
                    e[y] = e.get(y, 0) + b * k
                e = {y: k for y, k in e.items() if k}
                c = a * c1 + b * c2
                if not e:
                    if c > 0:
                        return True
                    continue
                from math import gcd
                g = 0
                for k in e.values():
                    g = gcd(g, k)
                if g > 1:
                    e = {y: k // g for y, k in e.items()}
                    c = -((-c) // g)
                rest.add((c, tuple(sorted(e.items()))))
        cs = simplify(rest)
        if len(cs) > LIMIT:
            return False
    return False


def simplify(cs):
    best = {}
    for c, d in cs:
        if d not in best or best[d] < c:
            best[d] = c
    return {(c, d) for d, c in best.items()}
