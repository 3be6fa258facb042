"""Evaluation under assumptions: branches against them are not taken, wherever in a loop or callee the condition is met."""
from .arith import Arith, reaches
from .ev import Ev, State
from .loops import entries
from .layout import StoreEv, alts
from .val import *


class AssumeEv(StoreEv):
    """assume: {condition: truth}; conditions may also be settled by arithmetic from assumed inequalities"""

    def __init__(self, P, assume=None, **k):
        super().__init__(P, **k)
        self.assume = dict(assume or {})
        for c, t in list(self.assume.items()):
            first = {}
            for x in walk(c):
                if x.op == 'lphi':
                    i, _ = entries(x)
                    if len(i) == 1:
                        first[x] = i[0]
            if first:
                # what is assumed of every time around a loop holds the first time
                c = subst(c, first)
                if c.op != 'k':
                    self.assume.setdefault(c, t)
        self.ar = Arith(self)
        self.met = {}           # every condition met on the way

    def settled(self, c):
        if c in self.assume:
            return self.assume[c]
        if c.op in ('and', 'or') and self.assume:
            rs = [self.settled(x) for x in c.a[0]] if isinstance(c.a[0], tuple) else [self.settled(x) for x in c.a]
            stop = c.op == 'or'
            return stop if stop in rs else None if None in rs else not stop
        if c.op == 'not':
            r = self.settled(c.a[0])
            return None if r is None else not r
        if c.op == 'isv':
            if c.a[0].op == 'chk':
                rs = [self.settled(x) for x in c.a[0].a[2]]
                r = False if False in rs else None if None in rs else True
                return r if r is None else r == (c.a[1] == 'Some')
            o = {'Ok': 'Err', 'Err': 'Ok', 'None': 'Some', 'Some': 'None'}.get(c.a[1])
            if o:
                r = self.assume.get(mk('isv', c.a[0], o))
                if r is not None:
                    return not r
            if self.assume and any(k.op == 'isv' and t and k.a[0] is c.a[0] for k, t in self.assume.items()):
                return False
        if c.op in ('le0', 'eq0') and any(k.op in ('le0', 'eq0', 'not') for k in self.assume):
            vs = {x for x in walk(c.a[0])}
            rel = {k: t for k, t in self.assume.items() if k.op in ('le0', 'eq0') and not vs.isdisjoint(atoms(k))}
            if rel:
                if self.ar.prove(rel, c):
                    return True
                if self.ar.prove(rel, lnot(c)):
                    return False
        return None

    def refine(self, st, c, truth):
        c = self.simp(st, c)
        if c.op not in ('k', 'phi'):
            if c.op not in ('and', 'or'):
                self.met[c] = True
            r = self.settled(c)
            if r is not None and r != truth:
                return False
        return super().refine(st, c, truth)

    def refine_isv(self, st, v, name, truth):
        v = self.simp(st, v)
        if v.op not in ('adt', 'phi', 'cf'):
            c = mk('isv', v, name)
            self.met[c] = True
            r = self.settled(c)
            if r is not None and r != truth:
                return False
        return super().refine_isv(st, v, name, truth)


def atoms(c):
    return {x for x in walk(c.a[0]) if x.op not in ('lin', 'k')}


def outcomes(v, st):
    """(value, facts) of the ways a run can end"""
    if v is None:
        return []
    a = list(alts(v))
    base = list(st.facts.items())
    return [(y, dict(list(fs) + base)) for y, fs in a] if len(a) > 1 else [(v, dict(st.facts))]


def ends(v, st, kind):
    """outcomes that may be the given variant (Ok, Err, Some, None)"""
    return [(y, f) for y, f in outcomes(v, st) if not (y.op == 'adt' and y.a[1] != kind)]


class CallEv(AssumeEv):
    """functions named in `apart` are not followed: their results are terms of their arguments, and what they do to their arguments is judged elsewhere"""
    apart = ()

    def __init__(self, P, assume=None, **k):
        super().__init__(P, assume, **k)
        self.again = set()      # loop headers reached a second time
        self.stopped = []

    stop = None             # (evaluator, callee, arguments, state) -> whether the path is not followed beyond this call

    def docall(self, fr, st, c, args, b, line, *a, **k):
        if self.stop is not None and self.stop(self, c, args, st):
            self.stopped.append((c, args, dict(st.facts)))
            return None
        return super().docall(fr, st, c, args, b, line, *a, **k)

    def taken_apart(self, c):
        return c.method in self.apart

    def value(self, fr, st, c, args, b, line):
        return mk('call', c.norm, tuple(c.args), tuple(args), None)

    def pre(self, fr, st, c, args, b, line):
        if self.taken_apart(c):
            self.event(fr, b, st, 'call', c, args, line)
            return self.value(fr, st, c, args, b, line), st
        return super().pre(fr, st, c, args, b, line)

    def merge_header(self, fr, b, ins, wid, prev):
        if prev is not None or len(ins) > 1:
            self.again.add((fr.id, b))
        return super().merge_header(fr, b, ins, wid, prev)

    def calls(self, *names):
        return [e for e in self.events.values() if e.kind == 'call' and e.callee.method in names]


def has(v, *texts):
    """mentions all of these fields, functions or arguments"""
    names = set()
    for x in walk(v):
        if x.op == 'fld':
            names.add(x.a[1])
        elif x.op == 'arg':
            names.add(x.a[0])
        elif x.op == 'call':
            names.add(x.a[0].rsplit('::', 1)[-1])
        elif x.op in ('isv', 'adt'):
            names.add(x.a[1])
        elif x.op == 'ref':
            names.update(p for p in x.a[2] if isinstance(p, str))
    return all(t in names for t in texts)


def counts(x, start=0):
    """a number that goes from zero (start) up one by one: an element of a range, or a counter kept by hand"""
    if x.op in ('elem', 'elemn'):
        it = x.a[0]
        d = dict(it.a[2]) if it.op == 'adt' else {}
        return it.op == 'adt' and it.a[0].endswith('Range') and d.get('start') is K(start)
    if x.op == 'lphi':
        i, b = entries(x)
        return bool(i) and all(y is K(start) for y in i) and all(y is x or y is add(x, K(1)) for y in b)
    return x.op == 'elemix'


def runs(v):
    """numbers in a value that go through a list or range"""
    return [x for x in walk(v) if x.op in ('elem', 'elemix', 'elemn') or x.op == 'lphi' and counts(x)]


def quants(met, pred):
    """conditions on all elements of a list, each with its truth where some element satisfies (any) or fails (all) what it says"""
    return {c: c.a[0] == 'any' for c in met if c.op == 'quant' and c.a[0] in ('any', 'all') and pred(c)}


def endless(P, R, cls, f, w, key, what):
    """if a list it walks never ended, the function would not succeed: nothing but the end of the list or an error ends the walk"""
    ev = cls(P)
    ev.run(f)
    n = 0
    for site, it, cs in walked(ev, f):
        n += 1
        R.ob('walks that only end with their list')
        e2 = cls(P, {c: True for c in cs})
        if it is not None:
            e2.noend.add(site)
            R.check(not partial(it), key, what, w)
        v, st = e2.run(f)
        R.check(not ends(v, st, 'Ok'), key, what, w)
    return n


PARTIAL = ('skip', 'take', 'step_by', 'take_while', 'skip_while', 'map_while')


def partial(it):
    """an iterator that leaves out elements by their place"""
    return any(x.op == 'it' and x.a[0] in PARTIAL for x in walk(it)) or sliced(it)


def sliced(it):
    """over a part of a list that begins after its first element or ends at a place of its own"""
    for x in walk(it):
        if x.op == 'it' and x.a[0] == 'refs' and x.a[1].op == 'ref':
            for p in x.a[1].a[2][-1:]:
                if isinstance(p, V) and p.op == 'slc':
                    return True
        elif x.op == 'it' and x.a[0] == 'refs' and x.a[1].op == 'slice':
            return True
    return False


def walked(ev, f):
    """(site, iterator, conditions that there is another element) of the outermost loops of f itself"""
    out = {s: (it, []) for s, it in ev.iters.items() if len(s) == 2 and s[0] == 0 and reaches(f, s[1], s[1])}
    for c in ev.met:
        c = c.a[0] if c.op == 'not' else c
        if c.op != 'le0':
            continue
        k, d = lin_parts(c.a[0])
        for x, n in d.items():
            if n == 1 and len(d) > 1 and x.op == 'lphi' and x.a[0] == 0 and counts(x):
                out.setdefault(x.a[:2], (None, []))[1].append(c)
    hd = [s[1] for s in out]
    return [(s, it, cs) for s, (it, cs) in out.items() if not any(h != s[1] and f.dominates(h, s[1]) and reaches(f, s[1], h) for h in hd)]


def head(f, b):
    """the innermost loop header around a block, or None"""
    bs = list(f.rpo())
    hs = [h for h in bs if f.dominates(h, b) and reaches(f, b, h) and any(f.dominates(h, p) and h in f.succ(p) for p in bs)]
    inner = [h for h in hs if all(f.dominates(o, h) for o in hs)]
    return inner[0] if inner else None


def goes_on(ev, f, s):
    """the loop of a walk (site) is gone around again"""
    h = head(f, s[1])
    return (0, s[1]) in ev.again or h is not None and (0, h) in ev.again
