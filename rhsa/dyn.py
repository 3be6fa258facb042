"""Abstract dynamic tags: a value of a known concrete type behind `dyn PrimaryTagStructDyn` / `dyn DynamicTagData`."""
import re
from .layout import *
from .val import V

TG = 'ringhopper_primitives::primitive::group::TagGroup'
DOWN = ('downcast_ref', 'downcast_mut', 'downcast')


def dynv(name):
    return mk('dynobj', name)


def dyn_of(v):
    for x in walk(v):
        if x.op == 'dynobj':
            return x
    return None


class DynEv(StoreEv):
    """group(), as_any(), downcasts and data_type() of an abstract dynamic value answer according to its concrete type."""

    def __init__(self, P, groups, **k):
        super().__init__(P, **k)
        self.groups = groups        # struct name -> group variant
        self.tried = []             # (dyn, T, ok, function, line)
        self.mark = False           # functions working on an already downcast tag are not followed
        self.subst = None           # what any `&dyn PrimaryTagStructDyn` handed to a function of the program is taken to be

    def plain(self, st, v):
        """follow references and boxes to the dynamic object itself: (object, extra path)"""
        n = 0
        while n < 12:
            n += 1
            if v.op == 'ref':
                if v.a[1].op == 'dynobj':
                    return v.a[1], tuple(e for e in v.a[2] if not (isinstance(e, str) and (e in ('0', 'pointer', '0.pointer'))))
                c = self.content(st, v)
                if c is v:
                    break
                v = c
                continue
            if v.op in ('cast', 'box', 'smart', 'at') and isinstance(v.a[0], V):
                v = v.a[0]
                continue
            if v.op == 'fld' and v.a[1] in ('0', 'pointer', 'ptr', '0.pointer'):
                v = v.a[0]
                continue
            break
        if v.op == 'dynobj':
            return v, ()
        return None, ()

    def pre(self, fr, st, c, args, b, line):
        if self.subst is not None and c.fn is not None and not c.trait and '{closure' not in c.fn.p:
            for i in range(min(len(args), c.fn.argc)):
                if re.fullmatch(r"&('\w+ )?(mut )?\(?dyn [\w:]*PrimaryTagStructDyn[\w +':]*\)?", c.fn.lty(i + 1) or '') and dyn_of(args[i]) is None:
                    args[i] = mk('ref', 'mut' in c.fn.lty(i + 1), self.subst, ())
        if self.mark and c.fn is not None and '{closure' not in c.fn.p and any(x.op == 'tagobj' for a in args for x in walk(a)):
            self.event(fr, b, st, 'call', c, args, line)
            return self.opaque_call(fr, st, c, args, b, line)
        if args:
            m = c.method
            if m in ('group', 'as_any', 'as_any_mut', 'as_dynamic', 'as_mut_dynamic', 'data_type', 'get_ref', 'get_mut') + DOWN or m in ('as_ref', 'as_mut', 'deref', 'deref_mut'):
                d, path = self.plain(st, args[0])
                if d is not None and not path:
                    ref = mk('ref', 'mut' in m, d, ())
                    if m == 'group' and d.a[0] in self.groups:
                        return adt(TG, self.groups[d.a[0]], ()), st
                    if m in ('as_any', 'as_any_mut', 'as_dynamic', 'as_mut_dynamic', 'as_ref', 'as_mut', 'deref', 'deref_mut') and len(args) == 1:
                        return ref, st
                    if (m in DOWN or m in ('get_ref', 'get_mut')) and c.args:
                        t = short(c.args[-1])
                        good = t == d.a[0]
                        self.tried.append((d, t, good, fr.fn.p, line))
                        if self.mark:
                            ref = mk('ref', ref.a[0], mk('tagobj', d.a[0]), ())
                        return (some(ref) if good else NONE), st
        return super().pre(fr, st, c, args, b, line)






class Chooser:
    """Enumerates the elements of the constant lists a function loops over: one evaluation per combination."""

    def __init__(self):
        self.at = {}
        self.n = {}
        self.order = []

    def __call__(self, site, n):
        if site not in self.at:
            self.at[site] = 0
            self.order.append(site)
        self.n[site] = n
        return min(self.at[site], n - 1)

    def advance(self):
        while self.order:
            s = self.order[-1]
            if self.at[s] + 1 < self.n[s]:
                self.at[s] += 1
                return True
            self.order.pop()
            del self.at[s]
        return False


def enumerate_runs(make, limit=400):
    """make() -> evaluator with .choose unset, and a function running it; yields every (ev, value, state)"""
    ch = Chooser()
    for _ in range(limit):
        ev, run = make()
        ev.choose = ch
        v, st = run(ev)
        yield ev, v, st
        if not ch.advance():
            return
    raise RuntimeError('too many combinations')
